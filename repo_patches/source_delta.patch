From 050e5933455202990737ccd716c1680381fd4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 01/16] fix: format command no longer truncates output when
 source can not be formatted

Output was opened with truncation before source was parsed, so a failed
run (or a source the locale encoding could not represent) destroyed
existing output, or the source itself when formatting in place.
---
 src/pygerber/console/gerber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c8e88ee..585d387 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -497,8 +497,12 @@ def format_cmd(
     output_path = Path(output)
     file = GerberFile.from_file(source)
 
-    with output_path.open("w") as f:
-        file.format(f, options=options)
+    # Complete formatting before opening output, so that failure to parse or format
+    # source does not destroy already existing output file (possibly source itself).
+    formatted = file.formats(options=options)
+
+    with output_path.open("w", encoding="utf-8") as f:
+        f.write(formatted)
 
 
 @gerber.group("merge-convert")
-- 
2.43.0


From 91b9c9b6216c591852aa4ecbf07e6e5f4831bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 02/16] fix: lint command reads sources as UTF-8 independently
 of locale

---
 src/pygerber/console/gerber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 585d387..11bf3fb 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -611,7 +611,7 @@ def lint(files: str, rules: list[str]) -> None:
     for file in files:
         path = Path(file).expanduser().resolve()
 
-        ast = parse(path.read_text())
+        ast = parse(path.read_text(encoding="utf-8"))
         violations = lint(ast, rules=rules)
 
         for violation in violations:
-- 
2.43.0


From 360915cec066d0b4144b1c75412dac396aa0143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 03/16] fix: save SVG to any binary file object

Objects returned by open() are not instances of typing.BinaryIO, hence
they were rejected with NotImplementedError despite being documented as
supported destinations.
---
 src/pygerber/vm/shapely/vm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 84e6113..38a2c7f 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -9,7 +9,6 @@ import importlib.util
 import math
 import operator
 from contextlib import suppress
-from io import BytesIO
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
@@ -129,7 +128,7 @@ class ShapelyResult(Result):
             with Path(destination).open("wb") as file:
                 self._dump_svg(file, color, encoding=encoding)
 
-        elif isinstance(destination, (BinaryIO, BytesIO)):
+        elif hasattr(destination, "write"):
             self._dump_svg(destination, color, encoding=encoding)
 
         else:
-- 
2.43.0


From e64cc4e2b76c32e096f56298122a9533c59efa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 04/16] fix: emit RVMC layers in order independent of string
 hash seed

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..9b4b80b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -777,7 +777,7 @@ class Compiler(StateTrackingVisitor):
         buffer_submit_order: list[str] = []
 
         def _(buffer: CommandBuffer) -> None:
-            for dependency_id in buffer.depends_on:
+            for dependency_id in sorted(buffer.depends_on):
                 dependency = self._get_buffer(dependency_id)
                 _(dependency)
 
-- 
2.43.0


From e5386219d9e82b117cf3d16a7f4fb88020bf6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 05/16] fix: infer file type without exposing intermediate
 values to other threads

Two threads rendering the same file with file type to be inferred could
observe each other's half finished inference and fail with
NotImplementedError.
---
 src/pygerber/gerber/api/_gerber_file.py | 31 +++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index f21ece3..5e69c43 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -629,34 +629,41 @@ class GerberFile:
         if style is not None:
             return style
 
-        if self._file_type in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
-            self._file_type = self._get_file_type_from_extension()
+        # Work on local copy, to never expose intermediate INFER_* values to other
+        # threads using this object.
+        file_type = self._file_type
 
-        if self._file_type in (FileTypeEnum.INFER_FROM_ATTRIBUTES, FileTypeEnum.INFER):
-            self._file_type = self._get_file_type_from_attributes()
+        if file_type in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
+            file_type = self._get_file_type_from_extension(file_type)
 
-        return self._color_map[self._file_type]
+        if file_type in (FileTypeEnum.INFER_FROM_ATTRIBUTES, FileTypeEnum.INFER):
+            file_type = self._get_file_type_from_attributes()
 
-    def _get_file_type_from_extension(self) -> FileTypeEnum:
+        self._file_type = file_type
+        return self._color_map[file_type]
+
+    def _get_file_type_from_extension(
+        self, requested_file_type: FileTypeEnum
+    ) -> FileTypeEnum:
         if not isinstance(self._source_type_or_path, Path):
-            if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
+            if requested_file_type == FileTypeEnum.INFER_FROM_EXTENSION:
                 return FileTypeEnum.UNDEFINED
 
-            if self._file_type == FileTypeEnum.INFER:
+            if requested_file_type == FileTypeEnum.INFER:
                 return FileTypeEnum.INFER_FROM_ATTRIBUTES
 
-            raise NotImplementedError(self._file_type)
+            raise NotImplementedError(requested_file_type)
 
         file_type = FileTypeEnum.infer_from_extension(self._source_type_or_path.suffix)
 
         if file_type == FileTypeEnum.UNDEFINED:
-            if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
+            if requested_file_type == FileTypeEnum.INFER_FROM_EXTENSION:
                 return file_type
 
-            if self._file_type == FileTypeEnum.INFER:
+            if requested_file_type == FileTypeEnum.INFER:
                 return FileTypeEnum.INFER_FROM_ATTRIBUTES
 
-            raise NotImplementedError(self._file_type)
+            raise NotImplementedError(requested_file_type)
 
         return file_type
 
-- 
2.43.0


From b6f491fc1aa8fbe2b9989cea5d5d63380c31103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:45 +0000
Subject: [PATCH 06/16] fix: builder tracks graphics state only from draws
 which were added

A draw call which failed (eg. coordinate out of range) had already marked
aperture, polarity, transform and plot mode as selected, so later draws
skipped commands they needed. Plot mode changed inside of a region was not
tracked at all, so line traces added afterwards were drawn as arcs.
---
 src/pygerber/builder/gerber.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..2898c13 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -139,6 +139,28 @@ class GerberX3Builder:
         self._current_location = draw._new_current_location  # noqa: SLF001
         self._draws.append(draw)
 
+        for node in draw._get_nodes():  # noqa: SLF001
+            self._track_state(node)
+
+    def _track_state(self, node: Node) -> None:
+        """Update tracked graphics state to match node which was added to image."""
+        if isinstance(node, Dnn):
+            self._selected_aperture = node.aperture_id
+        elif isinstance(node, LP):
+            self._polarity = node.polarity
+        elif isinstance(node, LR):
+            self._rotation = node.rotation
+        elif isinstance(node, LM):
+            self._mirroring = node.mirroring
+        elif isinstance(node, LS):
+            self._scale = node.scale
+        elif isinstance(node, G01):
+            self._plot_mode = PlotMode.LINEAR
+        elif isinstance(node, G02):
+            self._plot_mode = PlotMode.ARC
+        elif isinstance(node, G03):
+            self._plot_mode = PlotMode.CCW_ARC
+
     def new_pad(self) -> PadCreator:
         """Create a new pad."""
         return self._pad_creator
@@ -228,15 +250,12 @@ class GerberX3Builder:
             selected_aperture is not None
             and self._selected_aperture != selected_aperture
         ):
-            self._selected_aperture = selected_aperture
             yield Dnn(is_standalone=True, aperture_id=selected_aperture)
 
         if polarity is not None and polarity != self._polarity:
-            self._polarity = polarity
             yield LP(polarity=polarity)
 
         if rotation is not None and rotation != self._rotation:
-            self._rotation = rotation
             yield LR(rotation=rotation)
 
         if mirror_x is None:
@@ -248,11 +267,9 @@ class GerberX3Builder:
         mirroring = Mirroring.new(x=mirror_x, y=mirror_y)
 
         if mirroring != self._mirroring:
-            self._mirroring = mirroring
             yield LM(mirroring=mirroring)
 
         if scale is not None and scale != self._scale:
-            self._scale = scale
             yield LS(scale=scale)
 
         if plot_mode is not None and self._plot_mode != plot_mode:
@@ -264,7 +281,6 @@ class GerberX3Builder:
                 yield G03()
             else:
                 raise NotImplementedError(plot_mode)
-            self._plot_mode = plot_mode
 
     def add_cutout_pad(
         self,
-- 
2.43.0


From 13823a95bdbfd2eb45023f7e805e17570ced7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:45 +0000
Subject: [PATCH 07/16] fix: abandoned nested RVMC layer no longer blocks
 creation of next layers

---
 src/pygerber/builder/rvmc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/builder/rvmc.py b/src/pygerber/builder/rvmc.py
index c71a1ab..138b01c 100644
--- a/src/pygerber/builder/rvmc.py
+++ b/src/pygerber/builder/rvmc.py
@@ -183,11 +183,13 @@ class LayerBuilder:
         layer_context = LayerBuilder(
             layer_id=self._active_layer_id, box=box, origin=origin
         )
-        yield layer_context
+        try:
+            yield layer_context
 
-        layer_context.finalize()
-        self._commands.extend(layer_context.commands)
-        self._active_layer_id = None
+            layer_context.finalize()
+            self._commands.extend(layer_context.commands)
+        finally:
+            self._active_layer_id = None
 
     @property
     def commands(self) -> Sequence[Command]:
-- 
2.43.0


From 2086bfea526a8c8e777d6f4200560faafe70374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:00 +0000
Subject: [PATCH 08/16] fix: ids of layers not named in source no longer depend
 on time and memory layout

---
 src/pygerber/gerber/compiler/compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 9b4b80b..12b1164 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -5,7 +5,6 @@ abstract syntax tree to PyGerber rendering VM commands (RVMC).
 from __future__ import annotations
 
 import math
-import time
 from math import cos, radians, sin
 from typing import TYPE_CHECKING, ClassVar, Optional
 
@@ -134,6 +133,7 @@ class Compiler(StateTrackingVisitor):
         self._buffers: dict[str, CommandBuffer] = {}
         self._buffer_stack: list[str] = []
         self._contour_buffer: Optional[list[ShapeSegment]] = []
+        self._unique_aperture_count = 0
         self._create_main_buffer()
 
     def _set_buffer(self, buffer: CommandBuffer) -> None:
@@ -225,7 +225,7 @@ class Compiler(StateTrackingVisitor):
     def on_sr(self, node: SR) -> SR:
         """Handle `SR` node."""
         aperture_buffer = self._create_aperture_buffer(
-            ApertureIdStr(f"%%SR%{id(node)}%{time.time():.0f}")
+            self._create_unique_aperture_id("SR")
         )
         self._push_buffer(aperture_buffer.id_str)
 
@@ -296,6 +296,14 @@ class Compiler(StateTrackingVisitor):
 
         return buffer
 
+    def _create_unique_aperture_id(self, kind: str) -> ApertureIdStr:
+        """Create id of aperture which is not named in source code.
+
+        Created id depends only on compiled code, never on time nor memory layout.
+        """
+        self._unique_aperture_count += 1
+        return ApertureIdStr(f"%%{kind}%{self._unique_aperture_count}")
+
     def on_adr(self, node: ADR) -> ADR:
         """Handle `AD` rectangle node."""
         self.on_ad(node)
@@ -1014,7 +1022,7 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        aperture_id = self._compiler._create_unique_aperture_id("Code7")  # noqa: SLF001
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 3d5adf59be267a0c5cb2a2096994b27d3ccc9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:17 +0000
Subject: [PATCH 09/16] fix: RVMC cross with bad height no longer leaves half
 of the cross in layer

---
 src/pygerber/builder/rvmc.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/builder/rvmc.py b/src/pygerber/builder/rvmc.py
index 138b01c..59cfc2f 100644
--- a/src/pygerber/builder/rvmc.py
+++ b/src/pygerber/builder/rvmc.py
@@ -312,16 +312,13 @@ class LayerBuilder:
     ) -> None:
         """Add cross shape to the layer."""
         self._check_not_finalized_in_add()
-        self._commands.append(
-            Shape.new_rectangle(
-                center=center, width=width, height=thickness, is_negative=is_negative
-            )
+        horizontal = Shape.new_rectangle(
+            center=center, width=width, height=thickness, is_negative=is_negative
         )
-        self._commands.append(
-            Shape.new_rectangle(
-                center=center, width=thickness, height=height, is_negative=is_negative
-            )
+        vertical = Shape.new_rectangle(
+            center=center, width=thickness, height=height, is_negative=is_negative
         )
+        self._commands.extend((horizontal, vertical))
 
     def x(
         self,
-- 
2.43.0


From 1ad6d4c7c0f8ffeae3608bcd262d157841374060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:17 +0000
Subject: [PATCH 10/16] fix: RVMC layer which can not be created no longer
 blocks creation of next layers

---
 src/pygerber/builder/rvmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/builder/rvmc.py b/src/pygerber/builder/rvmc.py
index 59cfc2f..16521d4 100644
--- a/src/pygerber/builder/rvmc.py
+++ b/src/pygerber/builder/rvmc.py
@@ -179,10 +179,9 @@ class LayerBuilder:
             msg = "Cannot create a new layer from finalized layer."
             raise RuntimeError(msg)
 
-        self._active_layer_id = LayerID(id=id_)
-        layer_context = LayerBuilder(
-            layer_id=self._active_layer_id, box=box, origin=origin
-        )
+        layer_id = LayerID(id=id_)
+        layer_context = LayerBuilder(layer_id=layer_id, box=box, origin=origin)
+        self._active_layer_id = layer_id
         try:
             yield layer_context
 
-- 
2.43.0


From 3a28fbd6bc437a114adf91b9ac99effd58184019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:37 +0000
Subject: [PATCH 11/16] fix: encode image completely before touching the
 destination

Failure to encode (unsupported compression, empty image) truncated already existing
output file. TIFF saved to file object at position other than 0 had no header.
---
 src/pygerber/gerber/api/_gerber_file.py | 12 +++----
 src/pygerber/vm/pillow/vm.py            | 42 +++++++++++++++++--------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index 5e69c43..7896648 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -20,7 +20,7 @@ from pygerber.gerber.ast.nodes.enums import UnitMode
 from pygerber.gerber.compiler import compile
 from pygerber.gerber.parser import parse
 from pygerber.vm import render
-from pygerber.vm.pillow.vm import PillowResult
+from pygerber.vm.pillow.vm import PillowResult, save_image
 from pygerber.vm.shapely.vm import ShapelyResult
 from pygerber.vm.types.box import Box
 from pygerber.vm.types.style import Style
@@ -240,7 +240,7 @@ class _PillowSaveMixin:
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image().save(fp=destination, format="BMP", **kwargs)
+        save_image(self.get_image(), destination, "BMP", **kwargs)
 
     def save_png(
         self,
@@ -261,7 +261,7 @@ class _PillowSaveMixin:
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image().save(fp=destination, format="PNG", **kwargs)
+        save_image(self.get_image(), destination, "PNG", **kwargs)
 
     def save_jpeg(
         self,
@@ -282,7 +282,7 @@ class _PillowSaveMixin:
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image().convert("RGB").save(fp=destination, format="JPEG", **kwargs)
+        save_image(self.get_image().convert("RGB"), destination, "JPEG", **kwargs)
 
     def save_tiff(
         self,
@@ -303,7 +303,7 @@ class _PillowSaveMixin:
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image().save(fp=destination, format="TIFF", **kwargs)
+        save_image(self.get_image(), destination, "TIFF", **kwargs)
 
     def save_webp(
         self,
@@ -324,7 +324,7 @@ class _PillowSaveMixin:
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image().convert("RGB").save(fp=destination, format="WEBP", **kwargs)
+        save_image(self.get_image().convert("RGB"), destination, "WEBP", **kwargs)
 
     def get_image(self) -> PIL.Image.Image:
         """Get image object."""
diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index b57a680..c3867cf 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -6,7 +6,9 @@ from __future__ import annotations
 
 import math
 import operator
-from typing import TYPE_CHECKING, Any, BinaryIO, Callable, Generator, Optional, Sequence
+from io import BytesIO
+from pathlib import Path
+from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
 from PIL import Image, ImageDraw, ImageOps
 
@@ -30,9 +32,6 @@ from pygerber.vm.vm import (
     VirtualMachine,
 )
 
-if TYPE_CHECKING:
-    from pathlib import Path
-
 FULL_ANGLE_DEGREES = 360
 
 DECREASE_ANGLE = (operator.sub, operator.gt)
@@ -41,6 +40,27 @@ INCREASE_ANGLE = (operator.add, operator.lt)
 MIN_SEGMENT_COUNT = 12
 
 
+def save_image(
+    image: Image.Image,
+    destination: str | Path | BinaryIO,
+    file_format: str,
+    **kwargs: Any,
+) -> None:
+    """Save image to a file or buffer.
+
+    Image is completely encoded before destination is touched, so failure to encode
+    image does not destroy already existing file and output does not depend on what
+    destination is.
+    """
+    encoded = BytesIO()
+    image.save(fp=encoded, format=file_format, **kwargs)
+
+    if hasattr(destination, "write"):
+        destination.write(encoded.getvalue())
+    else:
+        Path(destination).write_bytes(encoded.getvalue())
+
+
 class PillowResult(Result):
     """The `PillowResult` class is a wrapper around items returned
     `PillowVirtualMachine` class as a result of executing rendering instruction.
@@ -120,7 +140,7 @@ class PillowResult(Result):
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image(color).save(fp=destination, format="BMP", **kwargs)
+        save_image(self.get_image(color), destination, "BMP", **kwargs)
 
     def save_png(
         self,
@@ -146,7 +166,7 @@ class PillowResult(Result):
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image(color).save(fp=destination, format="PNG", **kwargs)
+        save_image(self.get_image(color), destination, "PNG", **kwargs)
 
     def save_jpeg(
         self,
@@ -172,9 +192,7 @@ class PillowResult(Result):
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image(color).convert("RGB").save(
-            fp=destination, format="JPEG", **kwargs
-        )
+        save_image(self.get_image(color).convert("RGB"), destination, "JPEG", **kwargs)
 
     def save_tiff(
         self,
@@ -200,7 +218,7 @@ class PillowResult(Result):
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image(color).save(fp=destination, format="TIFF", **kwargs)
+        save_image(self.get_image(color), destination, "TIFF", **kwargs)
 
     def save_webp(
         self,
@@ -226,9 +244,7 @@ class PillowResult(Result):
             Additional keyword arguments to pass to `PIL.Image.save`.
 
         """
-        self.get_image(color).convert("RGB").save(
-            fp=destination, format="WEBP", **kwargs
-        )
+        save_image(self.get_image(color).convert("RGB"), destination, "WEBP", **kwargs)
 
     def get_image(self, style: Style = Style.presets.COPPER_ALPHA) -> Image.Image:
         """Get image with given color scheme using a fast compositing method."""
-- 
2.43.0


From d09a161d8ed6c278f207eef6851339ebc61a08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:37 +0000
Subject: [PATCH 12/16] fix: create SVG completely before opening the
 destination file

---
 src/pygerber/vm/shapely/vm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 38a2c7f..36213f0 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -9,6 +9,7 @@ import importlib.util
 import math
 import operator
 from contextlib import suppress
+from io import BytesIO
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
@@ -125,8 +126,10 @@ class ShapelyResult(Result):
         encoding = kwargs.get("encoding", "utf-8")
 
         if isinstance(destination, (str, Path)):
-            with Path(destination).open("wb") as file:
-                self._dump_svg(file, color, encoding=encoding)
+            # Failure to create SVG must not destroy already existing file.
+            svg = BytesIO()
+            self._dump_svg(svg, color, encoding=encoding)
+            Path(destination).write_bytes(svg.getvalue())
 
         elif hasattr(destination, "write"):
             self._dump_svg(destination, color, encoding=encoding)
-- 
2.43.0


From e1b4826e6ff8a4b421a9408a329f10063a82f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:51 +0000
Subject: [PATCH 13/16] fix: RVMC x with failing argument no longer leaves half
 of the x in layer

---
 src/pygerber/builder/rvmc.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/pygerber/builder/rvmc.py b/src/pygerber/builder/rvmc.py
index 16521d4..edc1e2f 100644
--- a/src/pygerber/builder/rvmc.py
+++ b/src/pygerber/builder/rvmc.py
@@ -330,22 +330,19 @@ class LayerBuilder:
         """Add cross shape to the layer."""
         self._check_not_finalized_in_add()
         half_length = length / 2
-        self._commands.append(
-            Shape.new_line(
-                start=(center[0] + half_length, center[1] + half_length),
-                end=(center[0] - half_length, center[1] - half_length),
-                thickness=thickness,
-                is_negative=is_negative,
-            )
+        rising = Shape.new_line(
+            start=(center[0] + half_length, center[1] + half_length),
+            end=(center[0] - half_length, center[1] - half_length),
+            thickness=thickness,
+            is_negative=is_negative,
         )
-        self._commands.append(
-            Shape.new_line(
-                start=(center[0] - half_length, center[1] + half_length),
-                end=(center[0] + half_length, center[1] - half_length),
-                thickness=thickness,
-                is_negative=is_negative,
-            )
+        falling = Shape.new_line(
+            start=(center[0] - half_length, center[1] + half_length),
+            end=(center[0] + half_length, center[1] - half_length),
+            thickness=thickness,
+            is_negative=is_negative,
         )
+        self._commands.extend((rising, falling))
 
     def paste(
         self, layer: LayerBuilder, at: tuple[float, float], *, is_negative: bool
-- 
2.43.0


From 976189774a4cfbe77b742d5e889f41bff8980294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:18 +0000
Subject: [PATCH 14/16] fix: empty auto-sized layer no longer breaks drawing on
 layer around it

---
 src/pygerber/vm/vm.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..e6654f3 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -262,17 +262,17 @@ class VirtualMachine(CommandVisitor):
             if box is None:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
-                return
 
-            new_layer = self.create_eager_layer(
-                top_layer.layer_id, top_layer.origin, box
-            )
-            self.set_layer(top_layer.layer_id, new_layer)
-
-            self.push_layer_to_stack(new_layer)
-            self.set_eager_handlers()
-            self._eval_deferred_commands(top_layer.commands)
-            self.pop_layer_from_stack()
+            else:
+                new_layer = self.create_eager_layer(
+                    top_layer.layer_id, top_layer.origin, box
+                )
+                self.set_layer(top_layer.layer_id, new_layer)
+
+                self.push_layer_to_stack(new_layer)
+                self.set_eager_handlers()
+                self._eval_deferred_commands(top_layer.commands)
+                self.pop_layer_from_stack()
 
         else:
             raise NotImplementedError(type(top_layer))
-- 
2.43.0


From a0e1c7f774e9b19a1d3cc815e7968a76d5cb8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:22 +0000
Subject: [PATCH 15/16] fix: log undetermined project layers with module logger

Module level logging.warning() configures the root logger of the whole
process when it has no handlers, so loading a project changed logging of the
application.
---
 src/pygerber/gerber/api/_gerber_job_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..4986e4d 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -15,6 +15,8 @@ from pygerber.gerber.api._errors import PathToGerberJobProjectNotDefinedError
 from pygerber.gerber.api._gerber_file import GerberFile
 from pygerber.gerber.api._project import Project
 
+logger = logging.getLogger(__name__)
+
 
 class _ModelType(BaseModel):
     """Model Type."""
@@ -188,7 +190,7 @@ class GerberJobFile(_ModelType):
                     inner[layer] = inner_layer
                     break
             else:
-                logging.warning("Could not determine layer for file %s", file.path)
+                logger.warning("Could not determine layer for file %s", file.path)
 
         for file in all_layers:
             top[file.file_type] = file
-- 
2.43.0


From 6f89bd9e41ab434666dda5f640d9fee7e989aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:44 +0000
Subject: [PATCH 16/16] fix: infer type of Gerber file again after its options
 change

File type inferred from attributes under former parser options was kept,
hence images rendered afterwards used colors of the former type.
---
 src/pygerber/gerber/api/_gerber_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index 7896648..ecd37e2 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -402,6 +402,7 @@ class GerberFile:
         source_type_or_path: Literal["@buffer", "@string"] | Path,
     ) -> None:
         self._source_code = source_code
+        self._requested_file_type = file_type
         self._file_type = file_type
         self._parser_options: dict[str, Any] = {}
         self._compiler_options: dict[str, Any] = {}
@@ -422,6 +423,7 @@ class GerberFile:
         return self._file_type
 
     def _flush_cached(self) -> None:
+        self._file_type = self._requested_file_type
         self._cached_ast = None
         self._cached_rvmc = None
         self._cached_final_state = None
-- 
2.43.0

