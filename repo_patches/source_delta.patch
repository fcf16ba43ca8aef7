From a94a4da07ae61a470491418fce8aac5b418c22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 01/34] fix: close the map file once it is written

Map.write left the gzip handle open, so the tail of the map only reached
the disk when the handle happened to be collected, and errors at that
point were lost.
---
 redeclipse/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..7beb3f4 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -90,7 +90,10 @@ class Map:
         :type path: str
         """
         log.info('WRITING')
-        handle = gzip.open(path, 'wb')
+        with gzip.open(path, 'wb') as handle:
+            self._write(handle)
+
+    def _write(self, handle):
         self._write_str(handle, tb(self.magic), null=False)
         # Write the version
         self._write_int(handle, self.version)
-- 
2.43.0


From 7126710cf80e62256af5b928235741686deae7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 02/34] fix: write map bytes above 127 as one byte

str.encode(chr(x)) is two bytes of UTF-8 from 128 upwards, so saving a map
read with such a value failed.
---
 redeclipse/__init__.py          | 2 +-
 redeclipse/entities/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 7beb3f4..4af7ed5 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -155,7 +155,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        handle.write(struct.pack('B', data))
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..a3f3778 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -61,7 +61,7 @@ class Entity:
 
     def serialize(self):
         return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From f4efd07c1807874fb699006a15b338cbc85c4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 03/34] fix: the first attribute of a player start is a team,
 not a weapon

Reading back a saved map with a player start of team 1 failed.
---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index a3f3778..7665a11 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From 113e68661b563f8df474c2bea2ceee9d2fce0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 04/34] fix: keep the map readable when map variables are added
 or removed

The variable count was not updated on save, and a skybox was written into
the header, where no reader expects it, rather than as a map variable.
---
 redeclipse/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 4af7ed5..1aa9d52 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -101,6 +101,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
@@ -331,7 +332,7 @@ class Map:
         Attach a skybox to the map
         """
         # pass
-        self.meta['skybox'] = sb.get_short_path()
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From 035a458bf679e49a4f7a89a42b462a4e807ed48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 05/34] fix: reject a map with an unknown cube type

The failed flag did not survive the recursion, so such a map was read as
an arbitrary part of itself.
---
 redeclipse/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 1aa9d52..d5671d5 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -482,8 +482,7 @@ class MapParser(object):
         elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             c.haschildren = True
         else:
-            failed = True
-            return failed, c
+            raise Exception("Garbage in map: unknown cube type %s" % octsav)
 
         c.texture = []
         for i in range(6):
-- 
2.43.0


From 471b8c008997e42bcfd7cef5f4c797e884843c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/34] fix: make the sizes declared in a .vox file match its
 contents

Voxels that were skipped were still counted, the palette was one entry
short of the size its chunk declares, and the model size was the largest
index rather than the number of voxels.
---
 redeclipse/magicavoxel/writer.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..22512f0 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,7 +2,16 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # The format stores each coordinate in a byte, so other voxels cannot be
+    # represented and must not be counted either.
+    voxels = [
+        (point, value) for (point, value) in voxel_world.world.items()
+        if all(0 <= q <= 255 for q in point)
+    ]
+    def size(largest):
+        return min(int(largest) + 1, 256)
+
+    cs = 4 * (1 + len(voxels))
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
@@ -12,21 +21,19 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', size(voxel_world.xmax)))  # x
+    handle.write(struct.pack('i', size(voxel_world.ymax)))  # y
+    handle.write(struct.pack('i', size(voxel_world.zmax)))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', len(voxels)))  # numvoxels
 
     def m(x):
         return int(x)
 
-    for ((x, y, z), value) in voxel_world.world.items():
-        if x > 255 or y > 255 or z > 255 or x < 0 or y < 0 or z < 0:
-            continue
+    for ((x, y, z), value) in voxels:
         handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
         # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
 
@@ -41,5 +48,5 @@ def to_magicavoxel(voxel_world, handle, texman):
     for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From 233beeb5a304578061af5ed21d3998abe2a18b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 07/34] fix: close the .vox and .json outputs

They were only flushed when the interpreter exited, where a full disk goes
unnoticed.
---
 redeclipse/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..cb8584b 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -20,7 +20,8 @@ def output_args(parser):
 
 def output(v, mymap, upm, prefabs, args):
     if args.magica:
-        to_magicavoxel(v, args.magica, prefabs.TEXMAN)
+        with args.magica:
+            to_magicavoxel(v, args.magica, prefabs.TEXMAN)
 
     if args.mpz_out:
         prefabs.TEXMAN.emit_conf(args.mpz_out)
@@ -57,4 +58,5 @@ def output(v, mymap, upm, prefabs, args):
                 'type': 'connected'
             })
 
-        json.dump(data, args.graph)
+        with args.graph:
+            json.dump(data, args.graph)
-- 
2.43.0


From 1ba58bc85f7a4163edc85ba72c440dc787b45e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 08/34] fix: keep rooms within the map

A 256 voxel world has tiles 0 to 31; tile 32 was accepted too, and only the
doors of a room were checked, so parts of rooms were dropped on saving.
---
 redeclipse/upm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..06ce05d 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
@@ -93,6 +93,8 @@ class UnusedPositionManager:
             for position in used:
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
+                if not self.is_legal(position):
+                    return False
             added_occupied = added_occupied.union(set(used))
             # Don't add the room if the door is off the edge.
             for door in room.get_doorways():
-- 
2.43.0


From 17580be8a46a8656f31eb3ff36e3b7115f7d43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 09/34] fix: attach a room by a door it really has

The door was chosen on a room with default options and the room then built
with random ones, so e.g. a corridor could end short of the door it was
meant to meet.
---
 redeclipse/upm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 06ce05d..76f27ce 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -297,6 +297,8 @@ class UnusedPositionManager:
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
                 kwargs = {'orientation': orientation}
+                # Add our random options, they can change where the doors are.
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -312,8 +314,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From 06014d111512d5e981d0e9791591131f5c471010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 10/34] fix: weighted_choice always chooses something

sum() rounds differently from the running total, so r could exceed it.
---
 redeclipse/upm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 76f27ce..d8478b8 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -241,7 +241,8 @@ class UnusedPositionManager:
             if upto + w >= r:
                 return c
             upto += w
-        return None
+        # Rounding can leave r just above the last boundary.
+        return choices[-1][0] if choices else None
 
     def random_room(self, connecting_room, room_options):
         """Pick out a random room based on the connecting room and the
-- 
2.43.0


From ef06a181a1eeeb7feb8e96087e3552bc1cbe3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 11/34] fix: magica_rooms without --mirror

It passed None, overriding the default of main().
---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..3c8444a 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', type=int, default=2, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From ccf8616c782a312409fd378a1d34193033430b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 12/34] fix: only replace the extension when naming the .cfg

A map name without .mpz made the config overwrite the map, and .mpz in a
directory name sent it elsewhere.
---
 redeclipse/cli/__init__.py      | 3 ++-
 redeclipse/textures/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index cb8584b..28e9dda 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -1,6 +1,7 @@
 import argparse
 import json
 import logging
+import os
 from redeclipse import MapParser
 from redeclipse.magicavoxel.writer import to_magicavoxel
 
@@ -27,7 +28,7 @@ def output(v, mymap, upm, prefabs, args):
         prefabs.TEXMAN.emit_conf(args.mpz_out)
         prefabs.TEXMAN.copy_data()
 
-        filename = args.mpz_out.name.replace('.mpz', '.cfg')
+        filename = os.path.splitext(args.mpz_out.name)[0] + '.cfg'
         with open(filename, 'a') as handle:
             for line in mymap.cfg_extra:
                 handle.write(line + '\n')
diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..43c971d 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -175,7 +175,7 @@ class TextureManager:
         ]))
 
     def emit_conf(self, map_output_path, author="Python", map_name="test", ):
-        filename = map_output_path.name.replace('.mpz', '.cfg')
+        filename = os.path.splitext(map_output_path.name)[0] + '.cfg'
         with open(filename, 'w') as handle:
             handle.write(comment.format(author=author, map_name=map_name))
             for idx, (tex_key, tex) in enumerate(self.atlas.items()):
-- 
2.43.0


From 45623419648b68308ed721da1f203cb266fda42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 13/34] fix: texture themes only offer textures that exist

The dull theme named two that do not, and an unknown category returned a
name instead of an index.
---
 redeclipse/textures/__init__.py   | 2 +-
 redeclipse/textures/dull_theme.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 43c971d..36fdd49 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From 40085aea40a208acbd3bdfb711a27e18b9ab9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 14/34] fix: PoleRoom asked random.randint for a fractional
 bound

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..fc49db3 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -652,7 +652,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From 15563e001192a2fd36cfbaed47b0990c97baa438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 15/34] fix: do not mark the first octant as divided when it is
 not

to_octree already marks it when it has children; otherwise the reader took
the following cubes for them.
---
 redeclipse/cli/__init__.py    | 1 -
 redeclipse/cli/perlin.py      | 1 -
 redeclipse/cli/rooms.py       | 1 -
 redeclipse/cli/snow_forest.py | 1 -
 4 files changed, 4 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index 28e9dda..f2ab2a0 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -34,7 +34,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
diff --git a/redeclipse/cli/perlin.py b/redeclipse/cli/perlin.py
index 999ccdc..31b79a2 100644
--- a/redeclipse/cli/perlin.py
+++ b/redeclipse/cli/perlin.py
@@ -73,7 +73,6 @@ def main():
                     v.set_point(i, j, k, cube.newtexcube(tex=q))
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index f5b9811..fd64796 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -83,7 +83,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         print('voxel')
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..e6d400b 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -140,7 +140,6 @@ def main():
                 mymap.ents.append(rock)
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
-- 
2.43.0


From e2e72fd0484261ab35f99faa318eb37e69c8fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 16/34] fix: add the blank texture the colour textures install

copy_data copies data/hxr/empty.png for every plain colour, but the file was
never added (the directory is ignored), so --mpz_out failed for the default
texture manager.
---
 redeclipse/textures/data/hxr/empty.png | Bin 0 -> 77 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)
 create mode 100644 redeclipse/textures/data/hxr/empty.png

diff --git a/redeclipse/textures/data/hxr/empty.png b/redeclipse/textures/data/hxr/empty.png
new file mode 100644
index 0000000000000000000000000000000000000000..4ca3388b73255f6de5d2c3f03cbe86b950af655e
GIT binary patch
literal 77
zcmeAS@N?(olHy`uVBq!ia0vp^0wB!61SBU+%rFB|BAzaeAr-fhfA}jUNL)2omG~oz
afnojHzw)^+7MudgGkCiCxvX<aXaWF)%M~sF

literal 0
HcmV?d00001

-- 
2.43.0


From 9d4543f422151e31c94ab9e35eb473482539e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 17/34] fix: declare the true size of the MAIN chunk in a .vox
 file

The MAIN chunk holds the SIZE (24 bytes), XYZI (12 + n) and RGBA (12 + 1024)
chunks; the header declared 12 bytes too few, so readers that honour it
lose the end of the palette.
---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 22512f0..ddb40fa 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -16,7 +16,7 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', cs + 48 + 1024))  # child chunk size
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
-- 
2.43.0


From ca9370e394553022bfd073b243daf52b6e7c956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 18/34] fix: effects on a world with rooms in it

Drawing shapes leaves a float in zmax, so the grid, decay and growth effects
failed with a TypeError on any world a room had been drawn in.
---
 redeclipse/aftereffects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index d06c6e7..178f2eb 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -100,7 +100,7 @@ def grid(world, size=24):
             (z % size == 0 and y % size == 0) or \
             (z % size == 0 and x % size == 0)
 
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if pos_func(x, y, z):
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
@@ -150,7 +150,7 @@ def growth(world, position_function):
     :rtype: None
     """
     log.info('Applying Growth Effect')
-    for z in tqdm(range(world.zmax)):
+    for z in tqdm(range(int(world.zmax))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 7ef257bc1faa36f00ee5111e68a7f5a83c034b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 19/34] fix: ImposingRingRoom cut holes in the room above it

The openings of a low ring room reached one voxel into the tile above.
---
 redeclipse/prefabs/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fc49db3..56b15bd 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -764,10 +764,12 @@ class ImposingRingRoom(_LargeRoom):
             for i in range(2, self._height * 8 - 1, 2):
                 self.x('ring', world, FineVector(-2, -2, i), 12, tex=accent_tex)
 
-        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
+        # Openings, within our own tiles
+        h = min(8, 8 * self._height - 1)
+        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, h), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, h), subtract=True)
+        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, h), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, h), subtract=True)
 
     def light(self, xmap):
         LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
-- 
2.43.0


From 5aa2d18440c095a67a763bb96a8b6e060f4f2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 20/34] fix: decay and growth cover the whole height of the
 world

The highest layer was never touched, and growth could leave a world that has
voxels above its top.
---
 redeclipse/aftereffects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/aftereffects.py b/redeclipse/aftereffects.py
index 178f2eb..126f885 100644
--- a/redeclipse/aftereffects.py
+++ b/redeclipse/aftereffects.py
@@ -125,7 +125,7 @@ def decay(world, position_function):
     :rtype: None
     """
     log.info('Applying Decay Effect')
-    for z in tqdm(range(int(world.zmax))):
+    for z in tqdm(range(min(int(world.zmax) + 1, world.size))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
@@ -150,7 +150,7 @@ def growth(world, position_function):
     :rtype: None
     """
     log.info('Applying Growth Effect')
-    for z in tqdm(range(int(world.zmax))):
+    for z in tqdm(range(min(int(world.zmax) + 1, world.size))):
         for x in range(world.size):
             for y in range(world.size):
                 if random.random() > position_function(x, y, z):
-- 
2.43.0


From 4136a624d05330dabc679835aa574f5d2d57b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:55 +0000
Subject: [PATCH 21/34] fix: AltarRoom ignored its random options

Its constructor dropped them, so every altar room had all of them.
---
 redeclipse/prefabs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 56b15bd..54a691f 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -138,6 +138,8 @@ class _3X3Room(Room):
         part of placement, we wouldn't want to place a partial room."""
         self.pos = CoarseVector(*pos)
         self.orientation = orientation
+        if randflags:
+            self._randflags = randflags
 
     def _get_doorways(self):
         return [
-- 
2.43.0


From 58b04655688bebd0bcc52966dc1dd4c0291638f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 22/34] fix: end the texcolor line of bump mapped textures

Without the line break the next command of the config, the shader of the
following texture or the first extra setting of the map, was swallowed.
---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..4bf3f08 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From 4a36c186c55881c48f4802f385258d9d01f18f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 23/34] fix: a .vox palette of more than 256 textures overran
 its chunk

---
 redeclipse/magicavoxel/writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index ddb40fa..7c7b4b3 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -45,8 +45,11 @@ def to_magicavoxel(voxel_world, handle, texman):
     def n(x):
         return int(255 * x)
 
-    for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
+    # The palette holds 256 colours; a voxel of a texture beyond them has
+    # failed above.
+    colours = list(texman.atlas.values())[:256]
+    for tex in colours:
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(256 - len(texman.atlas)):
+    for i in range(256 - len(colours)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From 697c6825134558a72555cbf9a864540cfdc29399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:56 +0000
Subject: [PATCH 24/34] fix: debug placeholders where several doorways lead to
 one position

---
 redeclipse/upm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index d8478b8..7b51f51 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -354,6 +354,9 @@ class UnusedPositionManager:
     def endcap(self, debug=False, possible_endcaps=[]):
         if debug:
             for (pos, typ, ori) in tqdm(self.unoccupied):
+                # Several doorways can lead to the same position.
+                if pos in self.occupied.keys():
+                    continue
                 r = self._room_cap_debug(pos, typ, ori)
                 if r:
                     self._register_room(r)
-- 
2.43.0


From d0a8aa905a85ac79db333a37b3a228a30b26a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:39 +0000
Subject: [PATCH 25/34] fix: jump pads and trees turn with their room

---
 redeclipse/prefabs/__init__.py              | 12 ++++++------
 redeclipse/prefabs/spacestation/__init__.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 54a691f..2b755d6 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -320,14 +320,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + TILE_CENTER + FineVector(3, 0, 1).rotate(self.orientation),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + TILE_CENTER + (EAST + EAST + FineVector(-3, 0, 1)).rotate(self.orientation),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -382,7 +382,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + TILE_CENTER + FineVector(1, 0, 1).rotate(self.orientation),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -390,7 +390,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + TILE_CENTER + FineVector(2, 0, 17).rotate(self.orientation),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -471,7 +471,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + TILE_CENTER + FineVector(0, 0, 1).rotate(self.orientation),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
@@ -814,7 +814,7 @@ class AltarRoom(_3X3Room):
 
         if self._randflags[0]:
             tree = MapModel(
-                xyz=self.pos + FineVector(4, 4, 3).rotate(self.orientation),
+                xyz=self.pos + TILE_CENTER + FineVector(0, 0, 3).rotate(self.orientation),
                 yaw=rotate_yaw(270, self.orientation),
                 type=124
             )
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..f9e0ab8 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + TILE_CENTER + (EAST + NORTH + FineVector(0, 1, 12)).rotate(self.orientation),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From f2136582df26c7715d1a5899b21aa0d930cbe3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:40 +0000
Subject: [PATCH 26/34] fix: lights of large rooms turn and move with the room

---
 redeclipse/prefabs/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 2b755d6..8a0d398 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -617,8 +617,8 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        position = self.pos + (NORTH + TILE_CENTER + FineVector(0, 0, h)).rotate(self.orientation)
+        LIGHTMAN.light(xmap, position)
 
 
 class PoleRoom(_LargeRoom):
@@ -662,7 +662,7 @@ class PoleRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 10),
+            xyz=self.pos + TILE_CENTER + FineVector(-1, 0, 10).rotate(self.orientation),
             red=255,
             green=255,
             blue=255,
@@ -711,7 +711,7 @@ class ImposingBlockRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 7),
+            xyz=self.pos + TILE_CENTER + FineVector(-1, 0, 7).rotate(self.orientation),
             red=255,
             green=255,
             blue=255,
@@ -774,7 +774,7 @@ class ImposingRingRoom(_LargeRoom):
         self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, h), subtract=True)
 
     def light(self, xmap):
-        LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
+        LIGHTMAN.light(xmap, self.pos + (NORTH + HALF_HEIGHT + TILE_CENTER).rotate(self.orientation))
 
 
 class AltarRoom(_3X3Room):
@@ -902,7 +902,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
@@ -975,7 +975,7 @@ class MultiPlatform(_LargeRoom):
         ]
 
     def light(self, xmap):
-        position = self.pos + TILE_CENTER + FineVector(0, 0, 16)
+        position = self.pos + (TILE_CENTER + FineVector(0, 0, 16)).rotate(self.orientation)
         LIGHTMAN.light(xmap, position)
 
 
-- 
2.43.0


From 87d54dfbb8512bf34ed7cde0c43390f65f6d3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:24 +0000
Subject: [PATCH 27/34] fix: turn the boundary offset of a modelled room once,
 not twice

---
 redeclipse/prefabs/magica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 5e6ace0..907f565 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -18,7 +18,7 @@ class MagicaRoom(Room):
     ]
 
     def __init__(self, pos, roof=False, orientation=EAST, randflags=None):
-        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0).rotate(orientation)
+        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)
         self.orientation = orientation
         self.pos = CoarseVector(*pos)
         if randflags:
-- 
2.43.0


From 4e93acf1acdd6f83023f669ea4a5f1e66b140102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:26 +0000
Subject: [PATCH 28/34] fix: close the model file of a modelled room, so that
 rooms can be copied and many kept

---
 redeclipse/prefabs/magica.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 907f565..d066aca 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -28,14 +28,18 @@ class MagicaRoom(Room):
         return '<MagicaRoom %s facing:%s,pos:%s>' % (self.name, n(self.orientation), self.pos)
 
     def load_model(self):
-        self.model = Magicavoxel.from_file(self.vox_file)
+        # Only what we need is kept: the model refers to its (open) file, which
+        # would neither be closed nor allow the room to be copied.
+        with Magicavoxel.from_file(self.vox_file) as model:
+            voxels = model.model_voxels.voxels
+            colours = model.palette.colours
         self.vox = VoxelWorld()
         self._colours = {}
-        for vox in self.model.model_voxels.voxels:
+        for vox in voxels:
             self.vox.set_point(vox.x, vox.y, vox.z, vox.c)
             # For every colour in the palette, register it with the current
             # class's colour atlas (non-global colour atlas).
-            for idx, colour in enumerate(self.model.palette.colours):
+            for idx, colour in enumerate(colours):
                 self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)
 
         self.__doors = []
@@ -57,12 +61,12 @@ class MagicaRoom(Room):
                 self.__positions.append(tmp)
 
     def _get_doorways(self):
-        if not hasattr(self, 'model'):
+        if not hasattr(self, 'vox'):
             self.load_model()
         return self.__doors
 
     def _get_positions(self):
-        if not hasattr(self, 'model'):
+        if not hasattr(self, 'vox'):
             self.load_model()
         return self.__positions
 
@@ -103,7 +107,7 @@ class MagicaRoom(Room):
         """
         Render the magica room to the world.
         """
-        if not hasattr(self, 'model'):
+        if not hasattr(self, 'vox'):
             self.load_model()
 
         # (re)initialize textures for self.
-- 
2.43.0


From 83bb1f5dd2f7c38625472a01521e40980b2c0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:10 +0000
Subject: [PATCH 29/34] fix: maps with texts that are not UTF-8 could not be
 printed as JSON

---
 redeclipse/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index d5671d5..57bb3b7 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -277,8 +277,8 @@ class Map:
             'magic': bytes.decode(self.magic),
             'version': self.version,
             'headersize': self.headersize,
-            'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
-            'map_vars': [(bytes.decode(key), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
+            'meta': [(key, bytes.decode(value, errors='surrogateescape') if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
+            'map_vars': [(bytes.decode(key, errors='surrogateescape'), bytes.decode(value, errors='surrogateescape') if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
             'texmru': self.texmru,
             'entities': [ent.to_dict() for ent in self.ents],
             'world': (x.to_dict() for x in self.world),
@@ -305,9 +305,9 @@ class Map:
         map_vars = OrderedDict()
         for (key, value) in data['map_vars']:
             if isinstance(value, str):
-                map_vars[str.encode(key)] = str.encode(value)
+                map_vars[str.encode(key, errors='surrogateescape')] = str.encode(value, errors='surrogateescape')
             else:
-                map_vars[str.encode(key)] = value
+                map_vars[str.encode(key, errors='surrogateescape')] = value
 
         # TODO
         world = {}
-- 
2.43.0


From bffb41e18d01ddb63dba0411aad32e68361c06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:10 +0000
Subject: [PATCH 30/34] fix: --graph failed for rooms without a name (endcaps,
 debugging placeholders)

---
 redeclipse/cli/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f2ab2a0..a10abf4 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -42,10 +42,12 @@ def output(v, mymap, upm, prefabs, args):
             "links": []
         }
         for room in upm.rooms:
+            # Only the modelled rooms have names of their own.
+            name = getattr(room, 'name', type(room).__name__)
             data['nodes'].append({
                 'id': id(room),
-                'name': room.name,
-                'label': room.name,
+                'name': name,
+                'label': name,
             })
 
         for a, b in upm.links:
-- 
2.43.0


From 6dc90422330d24ce4aa6c19d13b689efd1f904bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:10 +0000
Subject: [PATCH 31/34] fix: a map with a cube that has some surfaces only
 could not be printed as JSON

---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..f593275 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [x.to_dict() if x else None for x in self.surfaces],
         }
 
     @classmethod
-- 
2.43.0


From d27897a2cbb9f9094944362036c8eda059ae5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:10 +0000
Subject: [PATCH 32/34] fix: merge data of cubes was missing from the JSON form
 of a map

---
 redeclipse/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index f593275..b393dee 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -217,6 +217,7 @@ class cube:
             'faces': [f.name for f in self.faces],
             'texture': [t if isinstance(t, int) else t.value for t in self.texture],
             'material': self.material,
+            'merged': self.merged,
             'escaped': self.escaped,
             'visible': self.visible,
             'octsav': self.octsav,
-- 
2.43.0


From 3e81d4da711c065e5c77633f074c98f3b96f89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:01 +0000
Subject: [PATCH 33/34] fix: the tile a doorway leads out of belongs to a
 modelled room, so that no other room blocks it

---
 redeclipse/prefabs/magica.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index d066aca..01fe0dc 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -60,6 +60,14 @@ class MagicaRoom(Room):
             if tmp not in self.__positions:
                 self.__positions.append(tmp)
 
+        # The tile that a doorway leads out of belongs to the room even if the
+        # model does not reach it (the space above some stairs), no other room
+        # may block it.
+        for door in self.__doors:
+            tmp = door['offset'] - door['orientation']
+            if tmp not in self.__positions:
+                self.__positions.append(tmp)
+
     def _get_doorways(self):
         if not hasattr(self, 'vox'):
             self.load_model()
-- 
2.43.0


From f40722b93138ef890cdae0ae245cfe4c5a585a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:23 +0000
Subject: [PATCH 34/34] fix: the space above the stairs to the platform belongs
 to that room

---
 redeclipse/prefabs/egypt/__init__.py | 1 +
 redeclipse/prefabs/magica.py         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/redeclipse/prefabs/egypt/__init__.py b/redeclipse/prefabs/egypt/__init__.py
index 11faf6b..8b7dc03 100644
--- a/redeclipse/prefabs/egypt/__init__.py
+++ b/redeclipse/prefabs/egypt/__init__.py
@@ -29,6 +29,7 @@ class stair_toplatform(MagicaRoom):
     name = 'stair_toplatform'
     room_type = 'stair'
     vox_file = os.path.abspath(__file__).replace('__init__.py', 'stair_toplatform.vox')
+    headroom = [ABOVE]
 
     doors = [
         {'orientation': WEST, 'offset': WEST},
diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 01fe0dc..6f8de49 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -9,6 +9,8 @@ class MagicaRoom(Room):
     vox_file = None
     room_type = 'oriented'
     boundary_additions = {}
+    # Tiles above the model that players need in order to walk over it.
+    headroom = []
 
     doors = [
         {'orientation': WEST, 'offset': WEST},
@@ -63,8 +65,7 @@ class MagicaRoom(Room):
         # The tile that a doorway leads out of belongs to the room even if the
         # model does not reach it (the space above some stairs), no other room
         # may block it.
-        for door in self.__doors:
-            tmp = door['offset'] - door['orientation']
+        for tmp in [door['offset'] - door['orientation'] for door in self.__doors] + self.headroom:
             if tmp not in self.__positions:
                 self.__positions.append(tmp)
 
-- 
2.43.0

