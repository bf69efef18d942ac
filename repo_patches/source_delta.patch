From ee3369f0ff0dc499b3c1be87b5db84af76862bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:50 +0000
Subject: [PATCH 01/77] fix: reject time specifications without a known unit

T('24'), T('5x') and T('') silently gave zero, and T('1e-05s') was read
as minus five seconds, because anything which didn't match the pattern
was split off and its last character taken as a unit nobody looked at.
---
 sangfroid/t.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..478c371 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -139,6 +139,9 @@ class T:
         for spec in found:
             if spec.strip()=='':
                 continue
+            elif spec[-1] not in 'hmsf':
+                complain(
+                        f"'{spec}' has no unit that I know.")
             elif spec[-1] in parts:
                 complain(
                         f"The '{spec[-1]}' part was specified "
@@ -150,6 +153,9 @@ class T:
                 complain(
                         f"'{spec[:-1]}' is not a valid number.")
 
+        if not parts:
+            complain("This doesn't look like a time specification at all.")
+
         seconds = None
 
         for unit, size in [
@@ -291,7 +297,7 @@ class T:
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
 TIMESPEC_RE = re.compile(
-        r'(-?[0-9.]+[hmsf])'
+        r'(-?[0-9.]+(?:[eE][-+]?[0-9]+)?[hmsf])'
         )
 
 def _canvas_root(tag):
-- 
2.43.0


From f49a28bf30df2d437711fce3e76f4f731236c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:15 +0000
Subject: [PATCH 02/77] fix: a leading minus applies to a whole time
 specification

'-2m 5s', which is how we write the time 125 seconds before the start,
was read back as 115 seconds before the start.
---
 sangfroid/t.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 478c371..d382b4e 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -164,7 +164,13 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                seconds = seconds or 0.0
+
+                if seconds<0:
+                    # "-2m 5s" is minus two minutes and five seconds
+                    seconds -= parts[unit]*size
+                else:
+                    seconds += parts[unit]*size
 
         result = 0.0
 
-- 
2.43.0


From 21ab16745d51c7290c470d681e1a01aac46e6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:20 +0000
Subject: [PATCH 03/77] fix: Ts which compare equal have equal hashes

T(16) is equal to T(16, ref=...), and to 16, but it wasn't found when you
looked one of them up in a dict or a set which contained the other.
---
 sangfroid/t.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index d382b4e..bde4f7e 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -294,11 +294,9 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        # Not the FPS: a T with an unknown FPS is equal to
+        # a T of the same number of frames with a known FPS.
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From 5e10e6dd093106c54d023d51e31cd738768c2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:24 +0000
Subject: [PATCH 04/77] fix: allow zero Ts to be compared despite different FPS

The docstring says that Ts need the same FPS to be compared unless the
frame count is zero, but zero was refused like everything else.
---
 sangfroid/t.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index bde4f7e..533fbf5 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -239,7 +239,9 @@ class T:
             if (
                     other.fps is not None and
                     self.fps is not None and
-                    other.fps!=self.fps):
+                    other.fps!=self.fps and
+                    other.frames!=0.0 and
+                    self.frames!=0.0):
                 raise ValueError(
                         "Comparison between two Ts with different FPS: "
                         f"{self}, {other}"
-- 
2.43.0


From 241043a6945b3844a51c099aefb60cb30a104bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:28 +0000
Subject: [PATCH 05/77] fix: making a T from a T before the start keeps its
 time

T(T('-2s', ref=x), ref=x) counted two seconds back from the end of the
animation, so waypoints before the start moved there as well.
---
 sangfroid/t.py           | 4 ++++
 sangfroid/value/value.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 533fbf5..1f3fba1 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -94,6 +94,10 @@ class T:
         try:
             if isinstance(value, str):
                 self._frames = self._parse_time_spec(value)
+            elif isinstance(value, T):
+                # Already resolved, so a negative count doesn't
+                # mean "from the end" here.
+                self._frames = value._frames
             else:
                 self._frames = float(value)
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..6b03fcd 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -305,7 +305,7 @@ class Timeline:
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
             if t._fps is None:
-                return T(t._frames, self.parent._tag)
+                return T(t, self.parent._tag)
             else:
                 return t
         else:
-- 
2.43.0


From debbaebc989718d144f81882109b2138dfb77e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:56 +0000
Subject: [PATCH 06/77] fix: read and write the hyphenated attributes of the
 canvas

end_time was always five seconds, gamma_r, gamma_g and gamma_b were always
1.0, and view_box was always the default, whatever the file said; and
setting them added an attribute which Synfig doesn't know.
---
 sangfroid/animation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..985ff2e 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -55,10 +55,11 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25',
+                            name='view-box') # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -67,12 +68,14 @@ class Animation(Group):
             (Can this be non-integer?)""",
            )
     begin_time = TagTimeAttrField(0,
+           name = 'begin-time',
            doc = """
             The time at which this animation starts.
 
             Almost always zero.""",
            )
     end_time = TagTimeAttrField('5s',
+            name = 'end-time',
             doc = 'The time at which this animation ends.',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
-- 
2.43.0


From 565c8abce9efb55fa5080f1cc0140192323f3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:00 +0000
Subject: [PATCH 07/77] fix: let the end time be set to a number of frames

animation.end_time = 48 wrote end-time="48", which isn't a time
specification, so it couldn't be read back. Invalid times are also
refused now, rather than written.
---
 sangfroid/animation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 985ff2e..6c92f67 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,9 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        super().__set__(obj, T(value, ref = obj._tag))
+
 class Animation(Group):
     """
     A Synfig animation.
-- 
2.43.0


From 9d5518271e6c69875714184dd9cde37f8ba715e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:05 +0000
Subject: [PATCH 08/77] fix: let a description be given to an animation without
 one

A new Animation has no <desc>, and setting desc raised AttributeError.
An empty <desc> was also read as None instead of ''.
---
 sangfroid/field.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..e73fdcb 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -292,12 +292,21 @@ class NamedChildField(Field):
         if subtag is None:
             return ''
         else:
-            return subtag.string
+            return subtag.text
 
     def __set__(self, obj, value):
 
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name=self.name)
+
+            name_tag = obj._tag.find('name', recursive=False)
+            if name_tag is None:
+                obj._tag.insert(0, subtag)
+            else:
+                name_tag.insert_after(subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From 97c3d78aa68e4dc3757080db3fb2f79861d50a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:22 +0000
Subject: [PATCH 09/77] fix: raise ValueError where we meant to

"v" is sangfroid.value, which has no ValueError, and in find_all() it was
a local variable as well; so these all raised AttributeError or
UnboundLocalError instead.
---
 sangfroid/layer/layer.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..19a09ad 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -171,7 +171,7 @@ class Layer:
         matching_special = None
 
         if len(args)>1:
-            raise v.ValueError(
+            raise ValueError(
                     "You can only give one positional argument.")
         elif len(args)==1:
 
@@ -181,7 +181,7 @@ class Layer:
                      issubclass(args[0], Layer))
                     ):
                 if 'type' in kwargs:
-                    raise v.ValueError(
+                    raise ValueError(
                             "You can't give a type in both the positional "
                             "and keyword arguments.")
 
@@ -197,10 +197,10 @@ class Layer:
                 raise TypeError(args[0])
 
         if 'attrs' in kwargs:
-            for k,v in kwargs['attrs'].items():
+            for k, want in kwargs['attrs'].items():
                 if k in kwargs:
-                    raise v.ValueError("{k} specified both as a kwarg and in attrs")
-                kwargs[k] = v
+                    raise ValueError(f"{k} specified both as a kwarg and in attrs")
+                kwargs[k] = want
 
             del kwargs['attrs']
 
@@ -267,7 +267,7 @@ class Layer:
                 logger.debug("  -- callback says: %s", result)
                 return result
 
-            raise v.ValueError(found_tag)
+            raise ValueError(found_tag)
 
         result = [
                 self.from_tag(x) for x in
@@ -329,7 +329,7 @@ class Layer:
         """
         tag_type = tag.get('type', None)
         if tag_type is None:
-            raise v.ValueError(
+            raise ValueError(
                     f"tag has no 'type' field: {tag}")
         return cls.handles_type.from_name(name=tag_type)(tag)
 
@@ -417,18 +417,18 @@ class Layer:
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-        raise v.ValueError(f"param is not a <param>: {tag}")
+        raise ValueError(f"param is not a <param>: {tag}")
 
     name = tag.get('name', None)
     if name is None:
-        raise v.ValueError(f"param has no 'name' field: {tag}")
+        raise ValueError(f"param has no 'name' field: {tag}")
 
     value_tags = [tag for tag in tag.children
                   if isinstance(tag, bs4.element.Tag)
                   ]
 
     if len(value_tags)!=1:
-        raise v.ValueError(f"param should have one value: {tag}")
+        raise ValueError(f"param should have one value: {tag}")
 
     value_tag = value_tags[0]
 
-- 
2.43.0


From 03bc1dfdd2a5f342432d87e5a5c9f39a5a88de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 10/77] fix: times at a non-integral frame rate survive being
 written out

Waypoints store their times as strings, and parsing the string gave
99.99999999999999 rather than 100 for many frames at 29.97 fps,
so value.timeline[100] wasn't there after setting it.
---
 sangfroid/t.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 1f3fba1..c7bee74 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -197,6 +197,11 @@ class T:
             else:
                 result += parts['f']
 
+        if seconds:
+            # If the FPS isn't integral, the sum may be very slightly
+            # away from a whole number of frames.
+            result = round(result, 6)
+
         return result
 
     @property
@@ -267,7 +272,7 @@ class T:
 
     def __str__(self):
         if self._fps is None:
-            return '%gf' % (self._frames, )
+            return '%.10gf' % (self._frames, )
 
         frames = self._frames
         seconds = abs(self._frames/self._fps)
@@ -286,7 +291,7 @@ class T:
 
         if seconds!=0 or result==[]:
             frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+            result.append('%.10gf' % (frames,))
 
         if self._frames<0:
             minus = '-'
-- 
2.43.0


From 6f58c05ccb56d5ea6a67865c4458b9024a188d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:08 +0000
Subject: [PATCH 11/77] fix: find layers whose type has an underscore or which
 override type_

find_all('solid_color'), find_all(Solid_Color), find_all('blur'), and
find_all(Layer) all found nothing.
---
 sangfroid/layer/layer.py | 46 +++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 19a09ad..4d368ae 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -204,13 +204,6 @@ class Layer:
 
             del kwargs['attrs']
 
-        for k,v in kwargs.items():
-            if k=='type':
-                if not isinstance(v, str):
-                    v = v.__name__
-
-                kwargs[k] = v.lower().replace('_', '')
-
         logger.debug("begin find_all")
 
         def matcher(found_tag):
@@ -224,21 +217,16 @@ class Layer:
 
             if matching_special is None:
 
-                def munge(k,v):
-                    if k=='type':
-                        k = 'type_'
-                        v = v.lower()
-
-                    return (k,v)
+                logger.debug("want: %s", kwargs)
 
-                targets = [
-                    munge(k,v)
-                    for k,v in kwargs.items()
-                    ]
+                for k, want_value in kwargs.items():
 
-                logger.debug("want: %s", targets)
+                    if k=='type':
+                        if found_layer._is_of_type(want_value):
+                            logger.debug("    -- a match!")
+                            return True
+                        continue
 
-                for k, want_value in targets:
                     try:
                         found_value = getattr(found_layer, k)
                         logger.debug("  -- %s field is %s; want %s", k,
@@ -281,6 +269,26 @@ class Layer:
 
         return result
 
+    def _is_of_type(self, wanted):
+        """
+        Whether we're a particular type of layer.
+
+        Args:
+            wanted (str or Layer subclass): the type to look for.
+                As everywhere else, the case of the name and any
+                underscores in it are not significant.
+
+        Returns:
+            bool
+        """
+        if isinstance(wanted, type):
+            return isinstance(self, wanted)
+
+        return (
+                normalise_synfig_layer_type_name(self._tag['type']) ==
+                normalise_synfig_layer_type_name(wanted)
+                )
+
     @property
     def children(self):
         """
-- 
2.43.0


From 96c12a9980310cf78b62c55f1ff7947c764042a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 12/77] fix: find_all() with several criteria wants all of them

Beautiful Soup, whose arguments these are based on, does that too.
Before, find_all('text', desc='x') found every text layer.
---
 sangfroid/layer/layer.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 4d368ae..146daed 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -222,9 +222,9 @@ class Layer:
                 for k, want_value in kwargs.items():
 
                     if k=='type':
-                        if found_layer._is_of_type(want_value):
-                            logger.debug("    -- a match!")
-                            return True
+                        if not found_layer._is_of_type(want_value):
+                            logger.debug("  -- it is of another type")
+                            return False
                         continue
 
                     try:
@@ -235,17 +235,14 @@ class Layer:
                                      )
                     except AttributeError:
                         logger.debug("  -- it does not have a %s", k)
-                        continue
-
-                    logger.debug("  want: %s  found: %s",
-                                 want_value, found_value)
+                        return False
 
-                    if found_value==want_value:
-                        logger.debug("    -- a match!")
-                        return True
+                    if found_value!=want_value:
+                        logger.debug("  -- no match.")
+                        return False
 
-                logger.debug("  -- no matches.")
-                return False
+                logger.debug("  -- a match!")
+                return bool(kwargs)
 
             elif isinstance(matching_special, bool):
                 return matching_special
-- 
2.43.0


From ff464b78c4897e99611ca485c9c952f41be5ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:07 +0000
Subject: [PATCH 13/77] fix: a layer's own params come before its sub-layers'

Params which come after a group's canvas in the file (such as
time_dilation) were looked up in the group's first sub-layer which
had one of the same name.
---
 sangfroid/field.py       |  1 +
 sangfroid/layer/group.py |  3 ++-
 sangfroid/layer/layer.py | 35 ++++++++++++++++++++++++++++-------
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index e73fdcb..4d7fdc8 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -213,6 +213,7 @@ class ParamTagField(Field):
                                attrs={
                                    'name': self.name,
                                    },
+                               recursive=False,
                                )
 
         if holder is None:
diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..70c05b6 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -61,6 +61,7 @@ class Group(Layer):
                               attrs={
                                   'name': 'canvas',
                                   },
+                              recursive=False,
                               )
 
         if param is None:
@@ -70,7 +71,7 @@ class Group(Layer):
                     f"{self._tag}"
                     )
 
-        return param.find('canvas')
+        return param.find('canvas', recursive=False)
 
     def _get_children(self,
                  include_descendants = False,
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 146daed..602c58b 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -58,6 +58,9 @@ class Layer:
     def __init__(self, tag=None):
         if tag is None:
             self._tag = self._construct_empty_tag()
+        elif isinstance(tag, bs4.BeautifulSoup):
+            # a whole document; we want its root element
+            self._tag = tag.find(True, recursive=False)
         elif isinstance(tag, bs4.Tag):
             self._tag = tag
         else:
@@ -89,13 +92,13 @@ class Layer:
         return result
 
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
@@ -111,11 +114,29 @@ class Layer:
         old_value.tag.replace_with(new_value.tag)
 
     def __contains__(self, f):
-        found = self._tag.find(
-                'param',
-                attrs={'name': f},
-                )
-        return found is not None
+        return self._find_param(f) is not None
+
+    def _find_param(self, name):
+        """
+        Finds the <param> tag with the given name.
+
+        If we have no such param ourselves, we look for it
+        in our sub-layers.
+
+        Args:
+            name (str): the name of the param
+
+        Returns:
+            bs4.Tag, or None if it doesn't exist
+        """
+        for recursive in (False, True):
+            found = self._tag.find(
+                    'param',
+                    attrs = {'name': name},
+                    recursive = recursive,
+                    )
+            if found is not None:
+                return found
     
     @property
     def tag_depth(self):
-- 
2.43.0


From d5ba24cc017a5a1ae3c70b3809514e1ed84c9963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:26 +0000
Subject: [PATCH 14/77] fix: len() and find_all(recursive=False) of a group
 look at its children

len() counted all descendants, so len(group) wasn't len(list(group)),
and find_all(recursive=False) found nothing in any group except
the Animation itself.
---
 sangfroid/layer/group.py |  3 +++
 sangfroid/layer/layer.py | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 70c05b6..e9e2763 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -73,6 +73,9 @@ class Group(Layer):
 
         return param.find('canvas', recursive=False)
 
+    def _tag_of_sublayers(self):
+        return self.canvas_tag
+
     def _get_children(self,
                  include_descendants = False,
                  ):
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 602c58b..da6dd9a 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -275,9 +275,14 @@ class Layer:
 
             raise ValueError(found_tag)
 
+        if recursive:
+            tag = self._tag
+        else:
+            tag = self._tag_of_sublayers()
+
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
+                tag.find_all(matcher,
                                   recursive=recursive,
                                   )
                 ]
@@ -419,7 +424,7 @@ class Layer:
         return result
 
     def __len__(self):
-        return len(self._sublayer_tags())
+        return len(list(self.children))
 
     def append(self, layer):
         """
@@ -438,8 +443,11 @@ class Layer:
         raise NotImplementedError(
                 "Only Groups can contain other layers.")
 
-    def _sublayer_tags(self):
-        return self._tag.find_all('layer')
+    def _tag_of_sublayers(self):
+        """
+        The tag which directly contains the tags of our sub-layers.
+        """
+        return self._tag
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-- 
2.43.0


From a61e642cac713bc288f7ef88ca1386da07447c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:40 +0000
Subject: [PATCH 15/77] fix: read and write the 'type' param of layers which
 have one

Blur, Shade, Bevel, Halftone2, Halftone3, and Spherize had a field
named type_, which looked for a param named 'type_'.
---
 sangfroid/layer/blurs.py   | 2 +-
 sangfroid/layer/stylise.py | 4 ++--
 sangfroid/layer/tbd.py     | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sangfroid/layer/blurs.py b/sangfroid/layer/blurs.py
index db34a24..59c68e7 100644
--- a/sangfroid/layer/blurs.py
+++ b/sangfroid/layer/blurs.py
@@ -17,7 +17,7 @@ class Blur(Layer):
                         )
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
-    type_                = f.ParamTagField(v.Integer, 1,
+    type_                = f.ParamTagField(v.Integer, 1, name="type",
                         )
 
     ### }}}
diff --git a/sangfroid/layer/stylise.py b/sangfroid/layer/stylise.py
index d72ea10..4abc2d0 100644
--- a/sangfroid/layer/stylise.py
+++ b/sangfroid/layer/stylise.py
@@ -21,7 +21,7 @@ class Shade(Layer):
                         )
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
-    type_                = f.ParamTagField(v.Integer, 1,
+    type_                = f.ParamTagField(v.Integer, 1, name="type",
                         )
     invert               = f.ParamTagField(v.Bool, False,
                         )
@@ -41,7 +41,7 @@ class Bevel(Layer):
                         )
     blend_method         = f.ParamTagField(v.BlendMethod, v.BlendMethod.ONTO,
                         )
-    type_                = f.ParamTagField(v.Integer, 1,
+    type_                = f.ParamTagField(v.Integer, 1, name="type",
                         )
     color1               = f.ParamTagField(v.Color, (1.0, 1.0, 1.0, 1.0),
                         )
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 938be98..27bd87f 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -497,7 +497,7 @@ class Halftone3(Layer):
                         )
     size                 = f.ParamTagField(v.X_Y, (0.25, 0.25),
                         )
-    type_                = f.ParamTagField(v.Integer, 0,
+    type_                = f.ParamTagField(v.Integer, 0, name="type",
                         )
     subtractive          = f.ParamTagField(v.Bool, True,
                         )
@@ -529,7 +529,7 @@ class Halftone2(Layer):
                         )
     color_dark           = f.ParamTagField(v.Color, (0.0, 0.0, 0.0, 1.0),
                         )
-    type_                = f.ParamTagField(v.Integer, 0,
+    type_                = f.ParamTagField(v.Integer, 0, name="type",
                         )
 
     ### }}}
@@ -716,7 +716,7 @@ class Spherize(Layer):
                         )
     clip                 = f.ParamTagField(v.Bool, False,
                         )
-    type_                = f.ParamTagField(v.Integer, 0,
+    type_                = f.ParamTagField(v.Integer, 0, name="type",
                         )
 
     ### }}}
-- 
2.43.0


From ffa63c2206793bd1ff93e8092997e9f8d31050c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:09 +0000
Subject: [PATCH 16/77] fix: setting a vector replaces its members

The old x and y stayed where they were, before the new ones.
---
 sangfroid/value/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..e270465 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -63,6 +63,7 @@ class Vector(Value):
 
         self._tag.name = self.TAG_NAME
         self._tag.attrs = {}
+        self._tag.clear()
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
-- 
2.43.0


From 2f28a9da0bc3e3db991678229fce7cc54556a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 17/77] fix: the members of a vector are in the order of their
 names

X_Y({'y': 2, 'x': 1}) was equal to (2, 1).
---
 sangfroid/value/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index e270465..c51e27b 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -106,7 +106,7 @@ class Vector(Value):
     def values(self):
         if self.is_animated:
             return None
-        return [self.our_type(v) for v in self.value.values()]
+        return [self[k] for k in self.keys()]
 
     def items(self):
         return [(k, self.our_type(v)) for k,v in self.value.items()]
-- 
2.43.0


From ec2d771a6ada430ba819ebaa3a9616c7c7d03785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:26 +0000
Subject: [PATCH 18/77] fix: empty strings, and setting an animated string to a
 static one

An empty <string> read as 'None', String() was '()', and setting
the value of an animated string left it as an <animated> tag.
---
 sangfroid/value/string.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..394a4d6 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,11 +8,15 @@ class String(Value):
 
     @property
     def value(self):
-        result = str(self._tag.string)
-        return result
+        return self._tag.text
 
     @value.setter
     def value(self, v):
+        if v==() or v is None:
+            v = ''
+
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
         self._tag.string = str(v)
 
     def as_python_expression(self):
-- 
2.43.0


From 3a919354950f7fd25a3108b5cd3ab00a8e23acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:48 +0000
Subject: [PATCH 19/77] fix: simple values can be set to, and compared with,
 anything

circle.radius = Real(3) and circle.radius==None raised TypeError.
---
 sangfroid/value/simple.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..6a9a263 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -33,6 +33,9 @@ class Simple(Value):
         if self.our_type is None:
             raise NotImplementedError()
 
+        if isinstance(v, Simple):
+            v = v.value
+
         if v==() or v is None:
             result = self.our_type()
 
@@ -64,7 +67,7 @@ class Simple(Value):
         else:
             try:
                 v = self.our_type(other)
-            except ValueError:
+            except (TypeError, ValueError):
                 v = other
 
         return self._compare_with(v)
-- 
2.43.0


From 981eec9af64e00c34367a8880f2bff0dc4d39798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:52 +0000
Subject: [PATCH 20/77] fix: setting one part of a transformation leaves the
 others

group.angle = 45 removed the group's offset, skew_angle, and scale.
---
 sangfroid/field.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 4d7fdc8..e487a8e 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -331,10 +331,7 @@ class ShortcutField(Field):
         return result
 
     def __set__(self, obj, value):
-        self.upstream.__set__(obj,
-                              {
-                                  self.name: value,
-                                  })
+        self.upstream.__get__(obj)[self.name].value = value
 
     """
     Decorator. Imports all the keys of the named field as
-- 
2.43.0


From ff3cbaa6b04112eff13d37163bc03afa986af15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:23 +0000
Subject: [PATCH 21/77] fix: setting a transformation from part of one keeps
 the rest

This is also all or nothing: if one of the new values was bad,
the old ones were lost.
---
 sangfroid/value/transformation.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..089d7e6 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,16 +66,26 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        # Make them all first, so that if one of them is no good,
+        # nothing has changed.
+        new_subtags = []
 
-        for remaining, v in new_value.items():
+        for name, v in new_value.items():
 
-            v_as_value = self.REQUIRED_KEYS[remaining](v)
+            v_as_value = self.REQUIRED_KEYS[name](v)
 
-            new_subtag = bs4.Tag(name=remaining)
+            new_subtag = bs4.Tag(name=name)
             new_subtag.append(copy(v_as_value.tag))
             new_subtag.append("\n")
-            self.tag.append(new_subtag)
+            new_subtags.append(new_subtag)
+
+        for new_subtag in new_subtags:
+            old_subtag = self.tag.find(new_subtag.name, recursive=False)
+
+            if old_subtag is None:
+                self.tag.append(new_subtag)
+            else:
+                old_subtag.replace_with(new_subtag)
 
     def __getattr__(self, key):
         result = self.get(key, default=None)
-- 
2.43.0


From fa19ea93eed7af8f34f8ce662cd1398ad58062ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:37 +0000
Subject: [PATCH 22/77] fix: a vector can be set to itself

---
 sangfroid/value/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index c51e27b..b991489 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -57,7 +57,7 @@ class Vector(Value):
             else:
                 self._raise_type_error()
         elif hasattr(v, 'items'):
-            members = v
+            members = dict(v.items())
         else:
             self._raise_type_error()
 
-- 
2.43.0


From a36d268d822007075f326841bfd18c21c50a67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:56 +0000
Subject: [PATCH 23/77] fix: transformations are unequal to dicts with other
 keys

Comparing them raised KeyError.
---
 sangfroid/value/transformation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 089d7e6..374e316 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -155,7 +155,10 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if other[key]!=value:
+            try:
+                if other[key]!=value:
+                    return False
+            except KeyError:
                 return False
 
         return True
-- 
2.43.0


From a1137071ecf77109837bf67b34d8338980b8fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:15 +0000
Subject: [PATCH 24/77] fix: setting a gradient is all or nothing, and can
 replace an animation

If one of the colours was bad, the old ones were lost; if the gradient
was animated, the colours went inside the <animated> tag.
---
 sangfroid/value/gradient.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..42714ae 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,13 +27,20 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
-        self._tag.clear()
+        # Make them all first, so that if one of them is no good,
+        # nothing has changed.
+        colour_tags = []
 
         for pos, colour in sorted(v.items()):
 
             colour_tag = Color(colour).tag
             colour_tag['pos'] = '%.06g' % (pos,)
-            self._tag.append(colour_tag)
+            colour_tags.append(colour_tag)
+
+        self._tag.name = self.get_name_for_tag()
+        self._tag.attrs = {}
+        self._tag.clear()
+        self._tag.extend(colour_tags)
 
     def _raise_colour_count_error(self):
         raise ValueError("there should be at least two colours in a gradient")
-- 
2.43.0


From 2e339968885eef81a83f0ea9038dd73680ac5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:19 +0000
Subject: [PATCH 25/77] fix: changing a colour of a gradient leaves it where it
 was

---
 sangfroid/value/color.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 235d345..ce87950 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -92,7 +92,11 @@ class Color(Value):
         assert [type(n) for n in result]==[float]*4, result
 
         self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {}
+        self._tag.attrs = {
+                # where we are, if we're part of a gradient
+                k: v for k, v in self._tag.attrs.items()
+                if k=='pos'
+                }
         self._tag.clear()
 
         for i, dimension in enumerate(RGBA):
-- 
2.43.0


From b37b15d33593109046cc9839b2de14010478f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:36 +0000
Subject: [PATCH 26/77] fix: the sub-layers of a group can be set via its
 canvas

This always raised AttributeError, having thrown away the old ones.
---
 sangfroid/value/canvas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..3b28a73 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,14 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        v = list(v)
 
         for layer in v:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+
+        self._tag.clear()
+
+        for layer in v:
+            self._tag.append(layer.tag)
             self._tag.append("\n")
-- 
2.43.0


From ac308dfb45046997d632d0d732a2d14bcc2f8640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:58 +0000
Subject: [PATCH 27/77] fix: waypoint times are stored as strings, as they are
 when loaded

If the frame rate changed, new waypoints were where they had been
until the animation was saved, but not after it was loaded.
---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 6b03fcd..0cf44c9 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -540,7 +540,7 @@ class Waypoint:
     @property
     def tag(self):
         result = bs4.Tag(name="waypoint")
-        result['time'] = self.time
+        result['time'] = str(self.time)
         result['before'] = self._before
         result['after'] = self._after
         result.append(
-- 
2.43.0


From 09867075354d6fd09fe9006d22f925258f30f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:03 +0000
Subject: [PATCH 28/77] fix: putting a value into a layer doesn't take it out
 of another

layer2['radius'] = layer1['radius'] left layer1 without a radius.
---
 sangfroid/layer/layer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index da6dd9a..d2b192d 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -107,11 +107,14 @@ class Layer:
             if not isinstance(val, old_value.__class__):
                 raise TypeError(val.__class__)
 
-            new_value = val
-        else:
-            new_value = old_value.__class__(val)
+            new_tag = val.tag
+            if new_tag.parent is not None:
+                # It already belongs somewhere else.
+                new_tag = copy.copy(new_tag)
 
-        old_value.tag.replace_with(new_value.tag)
+            old_value.tag.replace_with(new_tag)
+        else:
+            old_value.value = val
 
     def __contains__(self, f):
         return self._find_param(f) is not None
-- 
2.43.0


From 4f389c9934731967b24c52ee5a5d135c2375961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:26 +0000
Subject: [PATCH 29/77] fix: blend methods can be read

layer.blend_method always raised AssertionError.
---
 sangfroid/field.py             |  9 +++++++++
 sangfroid/value/blendmethod.py | 11 +++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index e487a8e..eb2c3e1 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -229,6 +229,15 @@ class ParamTagField(Field):
                     f"contains {len(contents)}.")
 
         result = v.Value.from_tag(contents[0])
+
+        if (
+                not isinstance(result, self.type_) and
+                issubclass(self.type_, result.__class__)
+                ):
+            # The tag alone can't tell us that it's, for example,
+            # a BlendMethod and not just any Integer.
+            result = self.type_(contents[0])
+
         return result
 
     def __get__(self, obj, obj_type=None):
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..a6a88fa 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -30,11 +30,14 @@ class BlendMethod(Integer):
     
     ### }}}
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-
+    @Integer.value.setter
+    def value(self, v):
+        Integer.value.fset(self, v)
         self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
     @classmethod
     def from_tag(cls, t):
-- 
2.43.0


From 18fa4e7b20c5cafe6eac9a82432f26e22eb07f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:58 +0000
Subject: [PATCH 30/77] fix: time params can be set to, and compared with,
 seconds

group.time_offset = '2s' raised ValueError even though the group was
in an animation; duration=='2s' was never true. And new groups
had a time_offset of "0", which has no unit.
---
 sangfroid/layer/layer.py  |  6 ++++++
 sangfroid/value/simple.py | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index d2b192d..c622e40 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -488,6 +488,12 @@ class _TimeButString(v.Time):
     """
     our_type = str
 
+    def _coerce(self, v):
+        if isinstance(v, (int, float)):
+            return f'{v}f'
+        else:
+            return str(v)
+
     @classmethod
     def get_name_for_tag(cls):
         return 'time'
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 6a9a263..8546b38 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -28,6 +28,12 @@ class Simple(Value):
     def _construct_value(self, v):
         return self.our_type(v)
 
+    def _coerce(self, v):
+        """
+        Makes something of type our_type, from something the user gave us.
+        """
+        return self.our_type(v)
+
     @value.setter
     def value(self, v):
         if self.our_type is None:
@@ -41,7 +47,7 @@ class Simple(Value):
 
         else:
             try:
-                result = self.our_type(v)
+                result = self._coerce(v)
             except TypeError:
                 raise TypeError("I need a value of type "
                                 f"{self.our_type.__name__}, "
@@ -66,7 +72,7 @@ class Simple(Value):
             v = other.value
         else:
             try:
-                v = self.our_type(other)
+                v = self._coerce(other)
             except (TypeError, ValueError):
                 v = other
 
@@ -153,6 +159,9 @@ class Time(Simple):
                 ref = self._tag,
                 )
 
+    def _coerce(self, v):
+        return self._construct_value(v)
+
     def as_python_expression(self):
         v = self.value
 
-- 
2.43.0


From 21b456e069097d0c0f5ef0addb2e7be098c7e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:01 +0000
Subject: [PATCH 31/77] fix: stopping a value being animated works in place

It failed on values which weren't attached to a layer, and left
any other Values for the same param changing a tag which wasn't
in the document.
---
 sangfroid/value/value.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 0cf44c9..1b640b2 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -68,24 +68,18 @@ class Value:
                 self.timeline[0] = former_value
         else:
 
+            # We change the tag in place, so that anything
+            # else which refers to it stays correct.
+
             if adjust_contents:
-                timeline = self.timeline
-                first_value = timeline.values()[0]
+                new_tag = copy.copy(self.timeline.values()[0].value._tag)
             else:
-                first_value = None
+                new_tag = self._get_empty_tag()
 
             self._tag.clear()
-
-            new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
-            self._tag = new_tag
-
-            if first_value is not None:
-                old_tag = self._tag
-
-                self._tag = copy.deepcopy(first_value.value._tag)
-                if old_tag.parent is not None:
-                    old_tag.replace_with(self._tag)
+            self._tag.name = new_tag.name
+            self._tag.attrs = new_tag.attrs
+            self._tag.extend(list(new_tag.contents))
 
     @property
     def timeline(self):
-- 
2.43.0


From 7a1ffa22a70d77b5229a2c2cdac688dd1684df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:19 +0000
Subject: [PATCH 32/77] fix: waypoints can be looked up by any kind of time

timeline['1s'] and timeline[-1] raised KeyError, even though
they can be set that way; += set the timeline to None.
---
 sangfroid/value/value.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 1b640b2..ca1a7ed 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -316,7 +316,7 @@ class Timeline:
         return list(self.parent._waypoints().items())
 
     def __iadd__(self, waypoints):
-        self.add(waypoints,
+        return self.add(waypoints,
             overwrite = True,
                  )
 
@@ -372,15 +372,7 @@ class Timeline:
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
-        for t, wt in self.parent._waypoints().items():
-            if t==time:
-                return wt
-            elif t>time:
-                raise KeyError(time)
-
-        raise KeyError(time)
+        return self.parent._waypoints()[self._ensure_fps(time)]
 
     def __setitem__(self, t, v):
 
-- 
2.43.0


From fe5df74e016d1b6977a97df21cd15b50ea0a3493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:36 +0000
Subject: [PATCH 33/77] fix: the keys, values, and items of a timeline are in
 order of time

They were in the order of the file. Iterating over the timeline
itself already worked in order of time.
---
 sangfroid/value/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index ca1a7ed..5beb13f 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -125,6 +125,7 @@ class Value:
         """
         A dict of Waypoints on our timeline.
 
+        The dict is in order of time.
         If we're not animated, the dict will have no members.
 
         Returns:
@@ -143,7 +144,7 @@ class Value:
                                     )
                   for wt in waypoints]
 
-        result = dict([(v.time, v) for v in values])
+        result = dict([(v.time, v) for v in sorted(values)])
 
         return result
 
-- 
2.43.0


From b4b651ad60f3e7255f3278ea265dcbce6be5feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:41 +0000
Subject: [PATCH 34/77] fix: raise the errors we meant to about bad waypoints

---
 sangfroid/value/value.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 5beb13f..2b08f4b 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -551,16 +551,16 @@ class Waypoint:
             raise ValueError(
                     "If a value isn't attached to a document, "
                     "T-values in its timeline must be"
-                    "expressed in frames: {tag}"
+                    f"expressed in frames: {tag}"
                     )
 
         v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]
 
         if len(v)==0:
-            raise ValueError(f"Waypoint without a value: {w}")
+            raise ValueError(f"Waypoint without a value: {tag}")
         elif len(v)!=1:
             raise ValueError(
-                    f"Waypoint with multiple values: {w}")
+                    f"Waypoint with multiple values: {tag}")
         elif v[0].name==Value.ANIMATED:
             raise ValueError("Values in waypoints cannot themselves "
                              "be animated")
-- 
2.43.0


From d010360f7d533277c05507abe9f03a182cc511ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:18 +0000
Subject: [PATCH 35/77] fix: timelines only accept waypoints which they can
 read again

Something of the wrong type corrupted the value, and so did
circle.radius.timeline[0] = circle.radius, and timeline.add([]).
---
 sangfroid/value/value.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2b08f4b..8ab2b6d 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -90,7 +90,7 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
         elif isinstance(v, dict):
             self.timeline = list(v.values())
@@ -166,16 +166,31 @@ class Value:
                     )
             return
 
+        if self.is_animated:
+            type_name = self._tag['type']
+        else:
+            type_name = self._tag.name
+
+        for w in v:
+            if w.value.tag.name!=type_name:
+                raise TypeError(
+                        f"The waypoints must be of type {type_name}, "
+                        f"but this one isn't: {w}")
+
+        # Make these first, because the values of the waypoints
+        # might be in the tag we're about to clear.
+        waypoint_tags = [w.tag for w in sorted(v)]
+
         self._set_animated(
                 whether = True,
                 adjust_contents = False,
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, waypoint_tag in enumerate(waypoint_tags):
             if i!=0:
                 self._tag.append('\n')
-            self._tag.append(w.tag)
+            self._tag.append(waypoint_tag)
 
     def __len__(self):
         return len(self._waypoints())
@@ -355,20 +370,16 @@ class Timeline:
 
         if overwrite:
             for old, _ in clashes:
-                del existing[old]
+                existing.pop(old, None)
         elif clashes:
             raise ValueError("There are already Waypoints with those "
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
-
         existing |= dict([(w.time, w) for w in waypoints])
 
-        self.parent.tag.clear()
-
-        for w in sorted(existing.values()):
-            self.parent.tag.append(w.tag)
+        if existing:
+            self.parent._set_waypoints(existing.values())
 
         return self
 
@@ -395,13 +406,6 @@ class Timeline:
                     ref = self.parent.tag,
                     )
 
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
-                    )
-
         waypoints = self.parent._waypoints()
 
         waypoints[t] = new_waypoint
-- 
2.43.0


From 6f1454cc1e6f341eaf55e13a0d49158542b3b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:50 +0000
Subject: [PATCH 36/77] fix: write interpolation types under the names Synfig
 knows

When we rewrote a timeline, before="halt" turned into before="ease"
and "auto" into "tcb". Those are their names in the UI, not in files.
---
 sangfroid/value/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 8ab2b6d..d31dba8 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -532,8 +532,8 @@ class Waypoint:
     def tag(self):
         result = bs4.Tag(name="waypoint")
         result['time'] = str(self.time)
-        result['before'] = self._before
-        result['after'] = self._after
+        result['before'] = INTERPOLATION_TYPES[self._before][0]
+        result['after'] = INTERPOLATION_TYPES[self._after][0]
         result.append(
                 copy.copy(
                     self.value.tag
-- 
2.43.0


From 4833fc3f8c7b19ca54b4333ee657e4d019bf9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:54 +0000
Subject: [PATCH 37/77] fix: changing a timeline keeps the other attributes of
 its waypoints

Adding a waypoint lost the tension, continuity, and bias of
all the existing ones.
---
 sangfroid/value/value.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index d31dba8..ff8ecf8 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -488,6 +488,7 @@ class Waypoint:
         self._before = self._check_interpolation_type(before, True)
         self._after = self._check_interpolation_type(after, True)
         self.value = value
+        self._other_attrs = {}
 
     @property
     def before(self):
@@ -531,6 +532,7 @@ class Waypoint:
     @property
     def tag(self):
         result = bs4.Tag(name="waypoint")
+        result.attrs.update(self._other_attrs)
         result['time'] = str(self.time)
         result['before'] = INTERPOLATION_TYPES[self._before][0]
         result['after'] = INTERPOLATION_TYPES[self._after][0]
@@ -580,6 +582,13 @@ class Waypoint:
                 after = tag['after'],
                 )
 
+        # Such as the tension and bias. We don't interpret these,
+        # but we mustn't lose them if the timeline is changed.
+        result._other_attrs = dict([
+            (k, v) for k, v in tag.attrs.items()
+            if k not in ('time', 'before', 'after')
+            ])
+
         return result
 
     def __lt__(self, other):
-- 
2.43.0


From c72a51b00e5111c5b7dc2e3c303cc6fe59114efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:39 +0000
Subject: [PATCH 38/77] fix: the encoding of a .sif file doesn't depend on the
 locale

It's given in the XML declaration, so let the parser work it out.
This raised UnicodeDecodeError in the C locale, unlike .sifz files.
---
 sangfroid/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..bb9b469 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -169,7 +169,7 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        return FileContextHandler(open(self.filename, 'rb'))
 
     def save(self, content, filename=None):
         filename = self._filename_for_saving(filename)
-- 
2.43.0


From 5b2dd525c96c30e50e4e87ab6971c03ea5ee6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:43 +0000
Subject: [PATCH 39/77] fix: don't empty the file if we can't write the
 animation

For example, if a description had a lone surrogate in it, we raised
UnicodeEncodeError, but only after the old contents were gone.
---
 sangfroid/format.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index bb9b469..7bec75f 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -135,8 +135,8 @@ class Format:
 
         return filename
 
-    def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+    def _as_bytes(self, content):
+        return str(content).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -172,10 +172,13 @@ class Sif(Format):
         return FileContextHandler(open(self.filename, 'rb'))
 
     def save(self, content, filename=None):
+        # before we open the file, which empties it
+        encoded = self._as_bytes(content)
+
         filename = self._filename_for_saving(filename)
 
         with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
 
 class Sifz(Format):
 
@@ -186,10 +189,13 @@ class Sifz(Format):
         return FileContextHandler(gzip.open(self.filename, 'r'))
 
     def save(self, content, filename=None):
+        # before we open the file, which empties it
+        encoded = self._as_bytes(content)
+
         filename = self._filename_for_saving(filename)
 
         with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
 
 class Sfg(Format):
     
-- 
2.43.0


From 3c840ed2d9151eb98ee4867a58b97b886aa454ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:48 +0000
Subject: [PATCH 40/77] fix: line breaks and tabs in descriptions survive
 saving

They turned into spaces, because they weren't escaped. So did
carriage returns anywhere, except that those turned into newlines.
---
 sangfroid/format.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 7bec75f..bb929d3 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -1,6 +1,7 @@
 import gzip
 import os
 from bs4 import BeautifulSoup
+from bs4.formatter import XMLFormatter
 
 class Format:
     """
@@ -136,7 +137,7 @@ class Format:
         return filename
 
     def _as_bytes(self, content):
-        return str(content).encode('UTF-8')
+        return content.decode(formatter=_Formatter()).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -150,6 +151,25 @@ class Format:
                 and h!=Format
                 ]
 
+class _Formatter(XMLFormatter):
+    """
+    As Beautiful Soup's default formatter, except that it also
+    escapes the kinds of whitespace which XML parsers would
+    otherwise turn into something else.
+    """
+    def __init__(self):
+        super().__init__(
+                entity_substitution = XMLFormatter.REGISTRY[
+                    'minimal'].entity_substitution,
+                )
+
+    def substitute(self, ns):
+        return super().substitute(ns).replace('\r', '&#13;')
+
+    def attribute_value(self, value):
+        return super().attribute_value(value).replace(
+                '\n', '&#10;').replace('\t', '&#9;')
+
 class FileContextHandler:
     def __init__(self, f):
         self.soup = BeautifulSoup(
-- 
2.43.0


From cfc9ab0488f1c18e8fb09360e7e4c6cba4d8e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:05 +0000
Subject: [PATCH 41/77] fix: a failed save-as leaves the animation belonging to
 its old file

Afterwards, save() with no argument tried the new name again.
---
 sangfroid/animation.py | 10 ++++++----
 sangfroid/format.py    | 16 ++++++----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 6c92f67..c82504e 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -238,19 +238,21 @@ class Animation(Group):
                         "you must give one when you save."
                         )
             filename = self._format.filename
+            new_format = self._format
         else:
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
+            # XXX copy the images over
 
-        self._format.save(
+        new_format.save(
                 content = self._soup,
                 filename = filename,
                 )
 
+        # Only if that worked.
+        self._format = new_format
+
 __all__ = [
         'Animation',
         ]
diff --git a/sangfroid/format.py b/sangfroid/format.py
index bb929d3..481db1a 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -128,14 +128,6 @@ class Format:
         """
         raise NotImplementedError()
 
-    def _filename_for_saving(self, filename):
-        if filename is None:
-            filename = self.filename
-        else:
-            self.filename = filename
-
-        return filename
-
     def _as_bytes(self, content):
         return content.decode(formatter=_Formatter()).encode('UTF-8')
 
@@ -195,11 +187,13 @@ class Sif(Format):
         # before we open the file, which empties it
         encoded = self._as_bytes(content)
 
-        filename = self._filename_for_saving(filename)
+        filename = filename or self.filename
 
         with open(filename, 'wb') as f:
             f.write(encoded)
 
+        self.filename = filename
+
 class Sifz(Format):
 
     magic_number = b'\x1f\x8b' # gzip header
@@ -212,11 +206,13 @@ class Sifz(Format):
         # before we open the file, which empties it
         encoded = self._as_bytes(content)
 
-        filename = self._filename_for_saving(filename)
+        filename = filename or self.filename
 
         with gzip.open(filename, 'wb') as f:
             f.write(encoded)
 
+        self.filename = filename
+
 class Sfg(Format):
     
     magic_number = b'PK' # zipfile header (RIP Phil Katz)
-- 
2.43.0


From 37130c5e5bc8841f5ae58ea779dfa52a7b4b4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:23 +0000
Subject: [PATCH 42/77] fix: load files which have comments outside the canvas

And raise ValueError, rather than AssertionError, if they have
no canvas.
---
 sangfroid/animation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index c82504e..7fcbf02 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -127,8 +127,13 @@ class Animation(Group):
         with self._format.main_file() as soup:
             self._soup = soup
 
-        assert len(self._soup.contents)==1
-        tag = self._soup.contents[0]
+        # There may also be comments and so on at the top level.
+        tag = self._soup.find(True, recursive=False)
+
+        if tag is None or tag.name!='canvas':
+            raise ValueError(
+                    f"The file {filename} doesn't contain an animation.")
+
         super().__init__(
                 tag = tag,
                 )
-- 
2.43.0


From 3f50a23ca07f837e6c523e7fe42f3f738f9bd791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 43/77] fix: weight words by their own letters, as documented

The pause after each word was weighted by the number of letters
in its layer so far.
---
 bywords/bywords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..624e6be 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,9 +23,10 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, letters):
         self.text = text
         self.item = item
+        self.letters = letters
         self.time = 0
 
     def __lt__(self, other):
@@ -91,6 +92,7 @@ class BywordsGroup:
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            letters = len(word),
                             ))
 
                 if words and words[0].strip()=='':
@@ -98,13 +100,13 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.letters for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.letters*ms_per_letter
 
         return word_timings
 
-- 
2.43.0


From 29efedf9e68721993b1472c82aa9bb50928398c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:26 +0000
Subject: [PATCH 44/77] fix: don't lose words which are spoken at the same time

If two lines overlapped, and they each had a word at the same instant,
only one of the words appeared.
---
 bywords/bywords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 624e6be..4ba7eac 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -146,7 +146,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        result = []
         found = None
 
         for start, duration, text in self.lines:
@@ -159,12 +159,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                result.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words = sorted(result)
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From f4078a6db5c958b1eb5c2882ec9076d5d0e817d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:31 +0000
Subject: [PATCH 45/77] fix: subtitle lines with no words in them don't match
 groups with no text

This raised ZeroDivisionError.
---
 bywords/bywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 4ba7eac..ee393f9 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -72,7 +72,7 @@ class BywordsGroup:
         else:
             splitting_re = WHITESPACE
 
-        if s!=self.full_text:
+        if s.strip()=='' or s!=self.full_text:
             return None
 
         for _, item in self.texts:
-- 
2.43.0


From 095c62238e685bdc27a1ac9cb4ac25e4f45732da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:54 +0000
Subject: [PATCH 46/77] fix: text layers in bywords groups don't have to have a
 description

If one didn't, we raised AttributeError, whether or not there was
a subtitle for it.
---
 bywords/bywords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index ee393f9..e742e21 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -52,6 +52,7 @@ class BywordsGroup:
                 (self.tidy_string(item.desc), item,)
                 for item in
                 list(reversed(group.find_all('text')))
+                if item.desc is not None
                 ]
 
         self.full_text = ' '.join(
-- 
2.43.0


From 44413176fad9103be6c99aea6f6535192d8f0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:58 +0000
Subject: [PATCH 47/77] fix: the description of an animation isn't one of its
 sub-canvases'

---
 sangfroid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index eb2c3e1..cfec30f 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -293,7 +293,7 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
+        return obj._tag.find(self.name, recursive=False)
  
     def __get__(self, obj, obj_type=None):
 
-- 
2.43.0


From b3e42cf083fc1d91bf1ea2b30dd8f120d3e03e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:39 +0000
Subject: [PATCH 48/77] fix: allow 'from sangfroid import *'

There's no sangfroid.Canvas.
---
 sangfroid/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sangfroid/__init__.py b/sangfroid/__init__.py
index dd5a826..cf4d5d5 100644
--- a/sangfroid/__init__.py
+++ b/sangfroid/__init__.py
@@ -29,7 +29,6 @@ __version__ = '0.1'
 
 __all__ = [
         'layer',
-        'Canvas',
         'Keyframe',
         'Animation',
         'T',
-- 
2.43.0


From 1f64eb5297681ae7990ba19d054b244628218f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:43 +0000
Subject: [PATCH 49/77] fix: '0s 2f' needs a ref, as documented

---
 sangfroid/t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index c7bee74..641656b 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -178,7 +178,7 @@ class T:
 
         result = 0.0
 
-        if seconds is not None and seconds!=0.0:
+        if seconds is not None and (seconds!=0.0 or parts.get('f')):
 
             if self._fps is None:
                 complain("Time specifications in seconds require "
-- 
2.43.0


From b6fb955bf6e5d7cc1465736efff013bbf4b2a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 50/77] fix: inserting at or past the end of a group appends to
 it

As with lists. This raised IndexError, so you couldn't insert()
into an empty group at all.
---
 sangfroid/layer/group.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e9e2763..8fba9f6 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -129,7 +129,13 @@ class Group(Layer):
         if not isinstance(layer, Layer):
             raise TypeError(type(layer))
 
-        before = self[index]
+        following = list(self.children)[index:]
+
+        if not following:
+            self.append(layer)
+            return
+
+        before = following[0]
         # "before" from our perspective; *after* in the XML
 
         before._tag.insert_after("\n")
-- 
2.43.0


From f36ebfba6853b0d08ea69842e8a37a781175fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:25 +0000
Subject: [PATCH 51/77] fix: moving a layer within its group, or trying to put
 it in itself

Appending the last layer of a group to the group raised ValueError
from Beautiful Soup; appending a group to its own sub-group
took both of them out of the animation.
---
 sangfroid/layer/group.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index 8fba9f6..a43ec7c 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -2,6 +2,7 @@ from sangfroid.layer import Layer
 import sangfroid.value as v
 import sangfroid.field as f
 import bs4
+import operator
 
 @f.ShortcutField.include_from("transformation")
 @Layer.handles_type()
@@ -105,10 +106,29 @@ class Group(Layer):
                 include_descendants = True,
                 )
 
-    def append(self, layer):
+    def _take(self, layer):
+        """
+        Removes a layer from wherever it currently is, so that
+        we can put it somewhere inside us.
+
+        Raises:
+            TypeError: if it isn't a layer
+            ValueError: if it's us, or if we're already inside it
+        """
         if not isinstance(layer, Layer):
             raise TypeError(type(layer))
 
+        cursor = self._tag
+        while cursor is not None:
+            if cursor is layer._tag:
+                raise ValueError("You can't put a group inside itself.")
+            cursor = cursor.parent
+
+        layer._tag.extract()
+
+    def append(self, layer):
+        self._take(layer)
+
         after = None
         # "after" from our perspective; *before* in the XML
 
@@ -126,8 +146,8 @@ class Group(Layer):
             after.insert_before(layer._tag)
 
     def insert(self, index, layer):
-        if not isinstance(layer, Layer):
-            raise TypeError(type(layer))
+        index = operator.index(index)
+        self._take(layer)
 
         following = list(self.children)[index:]
 
-- 
2.43.0


From 2d040b52cfc9860fd78af48e46ad6d8cc7e5a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 52/77] fix: text which is only whitespace survives loading

A text layer of three spaces was loaded as one space.
---
 sangfroid/format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index 481db1a..a5aad04 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -167,6 +167,11 @@ class FileContextHandler:
         self.soup = BeautifulSoup(
                 f,
                 features = 'xml',
+                # otherwise, Beautiful Soup would collapse
+                # whitespace-only text even here
+                preserve_whitespace_tags = {
+                    'string', 'name', 'desc', 'keyframe',
+                    },
                 )
 
     def __enter__(self):
-- 
2.43.0


From 7cbe6d922f4b39d9e36785f3d29cf37b2eab50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:54 +0000
Subject: [PATCH 53/77] fix: the name of an animation may be empty or missing,
 or set

The field for it was hidden by a property which was None if the
name was empty, and found other names if it was missing.
---
 sangfroid/animation.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 7fcbf02..763c73f 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -142,10 +142,6 @@ class Animation(Group):
     def canvas_tag(self):
         return self._tag
 
-    @property
-    def name(self):
-        return self._tag.find('name').string
-
     @property
     def size(self):
         """
-- 
2.43.0


From d3517dbf64c7fd80aa19b54c22d434e3786e6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 54/77] fix: begin_time may be missing, or set, just as
 end_time may

The field for it was hidden by a property.
---
 sangfroid/animation.py | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 763c73f..a12be9d 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -171,21 +171,6 @@ class Animation(Group):
             self._tag.attrs['view-box'].split(' ')
             ])
 
-
-    @property
-    def begin_time(self):
-        """
-        The time at which this animation starts.
-
-        Almost always zero.
-
-        Type:
-            T
-        """
-        return T(self._tag.attrs['begin-time'],
-                 ref = self._tag,
-                 )
-
     @property
     def framecount(self):
         """
-- 
2.43.0


From 1be087c1facfc6b708fa4150814021d10fb1ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:01 +0000
Subject: [PATCH 55/77] fix: size, viewbox, and background may be missing, like
 their fields

---
 sangfroid/animation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index a12be9d..0742b1d 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -151,8 +151,8 @@ class Animation(Group):
             (int, int)
         """
         return (
-                int(self._tag.attrs['width']),
-                int(self._tag.attrs['height']),
+                self.width,
+                self.height,
                 )
 
     @property
@@ -168,7 +168,7 @@ class Animation(Group):
         """
         return tuple([
             float(n) for n in
-            self._tag.attrs['view-box'].split(' ')
+            self.view_box.split(' ')
             ])
 
     @property
@@ -196,7 +196,7 @@ class Animation(Group):
         """
         triplet = tuple([
             float(n) for n in
-            self._tag.attrs['bgcolor'].split(' ')
+            self.bgcolor.split(' ')
             ])
         result = Color(*triplet)
         return result
-- 
2.43.0


From e222016ea421102f48870898f0153fc38c20089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:58 +0000
Subject: [PATCH 56/77] fix: a leading minus also applies to a time beginning
 with zero

---
 sangfroid/t.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 641656b..982fbd1 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -160,6 +160,14 @@ class T:
         if not parts:
             complain("This doesn't look like a time specification at all.")
 
+        sign = 1
+        first_unit = next(iter(parts))
+
+        if s.startswith('-') and first_unit!='f':
+            # "-2m 5s" is minus two minutes and five seconds
+            sign = -1
+            parts[first_unit] = abs(parts[first_unit])
+
         seconds = None
 
         for unit, size in [
@@ -169,12 +177,7 @@ class T:
                 ]:
             if unit in parts:
                 seconds = seconds or 0.0
-
-                if seconds<0:
-                    # "-2m 5s" is minus two minutes and five seconds
-                    seconds -= parts[unit]*size
-                else:
-                    seconds += parts[unit]*size
+                seconds += parts[unit]*size
 
         result = 0.0
 
@@ -190,12 +193,10 @@ class T:
                 complain("If you give a number of seconds, the number "
                          "of frames can't be negative.")
 
-            seconds = seconds or 0
+            result += parts['f']
 
-            if seconds<0:
-                result -= parts['f']
-            else:
-                result += parts['f']
+        if result!=0:
+            result *= sign
 
         if seconds:
             # If the FPS isn't integral, the sum may be very slightly
-- 
2.43.0


From 9b81892ec8f3fcfca84adc764e12ca9a94606e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:02 +0000
Subject: [PATCH 57/77] fix: the number of frames can't be negative even beside
 zero seconds

---
 sangfroid/t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 982fbd1..a07cc40 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -189,7 +189,7 @@ class T:
             result += seconds * self._fps
 
         if 'f' in parts:
-            if seconds and parts['f']<0:
+            if seconds is not None and parts['f']<0:
                 complain("If you give a number of seconds, the number "
                          "of frames can't be negative.")
 
-- 
2.43.0


From 3551d59acd0749c248e57b8156ce6278c4da67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:12 +0000
Subject: [PATCH 58/77] fix: write out times without reaching a whole second of
 frames

For example, 167 frames at 0.167 fps were '16m 39s 0.167f'. And don't
lose parts of frames from long times of unknown FPS.
---
 sangfroid/t.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index a07cc40..42e5743 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -273,10 +273,13 @@ class T:
 
     def __str__(self):
         if self._fps is None:
-            return '%.10gf' % (self._frames, )
+            return '%.15gf' % (self._frames, )
 
-        frames = self._frames
-        seconds = abs(self._frames/self._fps)
+        # Rounded, because if the FPS isn't integral, the quotient may be
+        # very slightly away from a whole number of seconds.
+        frames = abs(self._frames)
+        seconds = int(round(frames/self._fps, 6))
+        frames = round(frames - seconds*self._fps, 7)
 
         result = []
 
@@ -290,8 +293,7 @@ class T:
                 result.append('%d%c' % (seconds//size, unit))
                 seconds = seconds % size
 
-        if seconds!=0 or result==[]:
-            frames = abs(frames) % self._fps
+        if frames>0 or result==[]:
             result.append('%.10gf' % (frames,))
 
         if self._frames<0:
-- 
2.43.0


From 0fbc67da4ac361a5408402ebcef37f0c11748d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:03 +0000
Subject: [PATCH 59/77] fix: setting a transformation keeps existing objects
 for its parts correct

---
 sangfroid/value/transformation.py | 25 ++++++++++++-------------
 sangfroid/value/value.py          | 27 +++++++++++++++++++--------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 374e316..21b0ee7 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -68,24 +68,23 @@ class Composite(Value):
 
         # Make them all first, so that if one of them is no good,
         # nothing has changed.
-        new_subtags = []
+        new_parts = dict([
+            (name, self.REQUIRED_KEYS[name](v))
+            for name, v in new_value.items()
+            ])
 
-        for name, v in new_value.items():
+        for name, part in new_parts.items():
+            old_part = self.get(name)
 
-            v_as_value = self.REQUIRED_KEYS[name](v)
+            if old_part is not None:
+                # Someone may have a reference to it.
+                old_part._become_copy_of(part.tag)
+                continue
 
             new_subtag = bs4.Tag(name=name)
-            new_subtag.append(copy(v_as_value.tag))
+            new_subtag.append(copy(part.tag))
             new_subtag.append("\n")
-            new_subtags.append(new_subtag)
-
-        for new_subtag in new_subtags:
-            old_subtag = self.tag.find(new_subtag.name, recursive=False)
-
-            if old_subtag is None:
-                self.tag.append(new_subtag)
-            else:
-                old_subtag.replace_with(new_subtag)
+            self.tag.append(new_subtag)
 
     def __getattr__(self, key):
         result = self.get(key, default=None)
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index ff8ecf8..7ea2d45 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -68,18 +68,29 @@ class Value:
                 self.timeline[0] = former_value
         else:
 
-            # We change the tag in place, so that anything
-            # else which refers to it stays correct.
-
             if adjust_contents:
-                new_tag = copy.copy(self.timeline.values()[0].value._tag)
+                new_tag = self.timeline.values()[0].value._tag
             else:
                 new_tag = self._get_empty_tag()
 
-            self._tag.clear()
-            self._tag.name = new_tag.name
-            self._tag.attrs = new_tag.attrs
-            self._tag.extend(list(new_tag.contents))
+            self._become_copy_of(new_tag)
+
+    def _become_copy_of(self, tag):
+        """
+        Gives our tag the name, attributes, and contents of another tag.
+
+        We change our tag in place, so that anything
+        else which refers to it stays correct.
+
+        Args:
+            tag (bs4.Tag): the tag to copy
+        """
+        tag = copy.copy(tag)
+
+        self._tag.clear()
+        self._tag.name = tag.name
+        self._tag.attrs = tag.attrs
+        self._tag.extend(list(tag.contents))
 
     @property
     def timeline(self):
-- 
2.43.0


From 83e460f6bdc2adbe38e63378c101823a429386fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:31 +0000
Subject: [PATCH 60/77] fix: making a value animated keeps all the digits of
 its colours

---
 sangfroid/value/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 7ea2d45..810a3bb 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -56,7 +56,8 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                # Not self.value, which may be less exact than we are.
+                former_value = self.__class__(copy.copy(self._tag))
 
             our_type = self._tag.name
             self._tag.attrs = {}
-- 
2.43.0


From 3700fdf2ca9930baca41a8c6cc8498e24108cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 61/77] fix: animated values can be compared

---
 sangfroid/value/color.py  |  2 ++
 sangfroid/value/simple.py |  3 +++
 sangfroid/value/value.py  | 32 ++++++++++++++++++++++++++++++++
 sangfroid/value/vector.py |  3 +++
 4 files changed, 40 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index ce87950..8946f85 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -26,6 +26,8 @@ class Color(Value):
         return result
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._has_same_timeline_as(other)
 
         if isinstance(other, Color):
             return self.value == other.value
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 8546b38..ae905b1 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -68,6 +68,9 @@ class Simple(Value):
         return str(v)
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._has_same_timeline_as(other)
+
         if isinstance(other, self.__class__):
             v = other.value
         else:
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 810a3bb..fdefc4b 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -253,11 +253,43 @@ class Value:
         raise NotImplementedError()
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._has_same_timeline_as(other)
+
         if isinstance(other, Value):
             return self.value == other.value
 
         return self.value == other
 
+    def _either_is_animated(self, other):
+        return self.is_animated or (
+                isinstance(other, Value) and other.is_animated)
+
+    def _has_same_timeline_as(self, other):
+        """
+        Whether we and the other value are both animated,
+        and in the same way.
+
+        Returns:
+            bool
+        """
+        if not (
+                isinstance(other, Value) and
+                self.is_animated and
+                other.is_animated
+                ):
+            return False
+
+        ours = self.timeline.values()
+        theirs = other.timeline.values()
+
+        return len(ours)==len(theirs) and all([
+            a.time==b.time and
+            a.before==b.before and
+            a.after==b.after and
+            a.value==b.value
+            for a, b in zip(ours, theirs)])
+
     def as_python_expression(self):
         """
         A Python expression which could be passed to the constructor
diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index b991489..0b3f16e 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -127,6 +127,9 @@ class Vector(Value):
             return str(self.value)
 
     def __eq__(self, other):
+        if self._either_is_animated(other):
+            return self._has_same_timeline_as(other)
+
         try:
             if len(other)!=len(self):
                 return False
-- 
2.43.0


From 198f75f31e9ba3e9966bb25f3eeef7542f8abe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:22 +0000
Subject: [PATCH 62/77] fix: a group can't be put inside itself by way of its
 canvas

---
 sangfroid/value/canvas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3b28a73..9ebc58d 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -32,6 +32,9 @@ class Canvas(Value):
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
 
+            if any([t is layer.tag for t in self._tag.parents]):
+                raise ValueError("You can't put a group inside itself.")
+
         self._tag.clear()
 
         for layer in v:
-- 
2.43.0


From e634ab294f110946f9e0bccc0bb200a38dcca2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:43 +0000
Subject: [PATCH 63/77] fix: only hex digits are hex digits

---
 sangfroid/value/color.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 8946f85..c6270e9 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -1,3 +1,4 @@
+import string
 import bs4
 from sangfroid.value.value import Value
 
@@ -79,6 +80,9 @@ class Color(Value):
             else:
                 _raise_format_error()
 
+            if not all([digit in string.hexdigits for digit in v]):
+                _raise_format_error()
+
             result = tuple(
                 round(int(v[i*2:i*2+2], 16)/255, 6)
                 for i in range(4))
-- 
2.43.0


From 8ad518aafcddd3cf89943db6056c06ad2cbe3199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 64/77] fix: a vector can only be set to numbers for x and y

---
 sangfroid/value/vector.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 0b3f16e..b1afc74 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -49,11 +49,6 @@ class Vector(Value):
                 members = {}
             elif len(v)==2:
                 members = dict(zip(self.FIELDS, v))
-
-                for m in members.values():
-                    if not isinstance(m, (float, int)):
-                        self._raise_type_error()
-
             else:
                 self._raise_type_error()
         elif hasattr(v, 'items'):
@@ -61,6 +56,8 @@ class Vector(Value):
         else:
             self._raise_type_error()
 
+        self._check_members(members)
+
         self._tag.name = self.TAG_NAME
         self._tag.attrs = {}
         self._tag.clear()
@@ -73,6 +70,11 @@ class Vector(Value):
                 addendum.string = str(v)
             self._tag.append(addendum)
 
+    def _check_members(self, members):
+        for m in members.values():
+            if not isinstance(m, (float, int)):
+                self._raise_type_error()
+
     def __getitem__(self, key):
         result = self.get(key, default=None)
 
@@ -185,4 +187,9 @@ class Vector(Value):
         return c(tag)
 
 class X_Y(Vector):
-    pass
+
+    def _check_members(self, members):
+        super()._check_members(members)
+
+        if set(members)!=set(self.FIELDS):
+            self._raise_type_error()
-- 
2.43.0


From b6e9151fe75d111ddebce844739cd31de5fa9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:06 +0000
Subject: [PATCH 65/77] fix: refusing a name or description doesn't lose the
 old one

---
 sangfroid/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index cfec30f..f2b6f6e 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -306,6 +306,11 @@ class NamedChildField(Field):
 
     def __set__(self, obj, value):
 
+        if not isinstance(value, self.type_):
+            raise TypeError(
+                    f"{self.name} must be {self.type_.__name__}, "
+                    f"not {type(value).__name__}.")
+
         subtag = self.get_subtag_for_obj(obj)
 
         if subtag is None:
-- 
2.43.0


From e86ffd58326d253a17f746c73ff69be09a4b496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:10 +0000
Subject: [PATCH 66/77] fix: an animation isn't a layer which can be put inside
 another

---
 sangfroid/layer/group.py  | 2 +-
 sangfroid/value/canvas.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index a43ec7c..beb79f3 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -115,7 +115,7 @@ class Group(Layer):
             TypeError: if it isn't a layer
             ValueError: if it's us, or if we're already inside it
         """
-        if not isinstance(layer, Layer):
+        if not isinstance(layer, Layer) or layer._tag.name!='layer':
             raise TypeError(type(layer))
 
         cursor = self._tag
diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 9ebc58d..49894c1 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -29,7 +29,7 @@ class Canvas(Value):
         v = list(v)
 
         for layer in v:
-            if not isinstance(layer, Layer):
+            if not isinstance(layer, Layer) or layer.tag.name!='layer':
                 raise TypeError(type(layer))
 
             if any([t is layer.tag for t in self._tag.parents]):
-- 
2.43.0


From 5f70ce15e0a8284b2e7dcef52faee53f39ac3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:13 +0000
Subject: [PATCH 67/77] fix: a group with no canvas doesn't lose the layers it
 can't take

---
 sangfroid/layer/group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index beb79f3..189d216 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -113,7 +113,8 @@ class Group(Layer):
 
         Raises:
             TypeError: if it isn't a layer
-            ValueError: if it's us, or if we're already inside it
+            ValueError: if it's us, or if we're already inside it,
+                or if we have nowhere to put it
         """
         if not isinstance(layer, Layer) or layer._tag.name!='layer':
             raise TypeError(type(layer))
@@ -124,6 +125,9 @@ class Group(Layer):
                 raise ValueError("You can't put a group inside itself.")
             cursor = cursor.parent
 
+        if self.canvas_tag is None:
+            raise ValueError("We have no canvas to put it in.")
+
         layer._tag.extract()
 
     def append(self, layer):
-- 
2.43.0


From aa0396a6d3d49710ff500f4de940d0f00d3bd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:17 +0000
Subject: [PATCH 68/77] fix: refuse to animate transformations and canvases as
 a whole

---
 sangfroid/value/canvas.py         | 3 +++
 sangfroid/value/transformation.py | 1 +
 sangfroid/value/value.py          | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 49894c1..47bf502 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -3,6 +3,9 @@ from sangfroid.value.value import Value
 
 @Value.handles_type()
 class Canvas(Value):
+
+    CAN_BE_ANIMATED = False
+
     @property
     def value(self):
 
diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 21b0ee7..2ec1cbf 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -7,6 +7,7 @@ from copy import copy
 @Value.handles_type()
 class Composite(Value):
 
+    CAN_BE_ANIMATED = False
     REQUIRED_KEYS = None
 
     def __init__(self, *args, **kwargs):
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index fdefc4b..dc5986a 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -9,6 +9,10 @@ class Value:
 
     ANIMATED = 'animated'
 
+    # False for types which contain other values:
+    # those can be animated, but we can't.
+    CAN_BE_ANIMATED = True
+
     def __init__(self, *args):
 
         if len(args)==1 and isinstance(args[0], bs4.element.Tag):
@@ -55,6 +59,10 @@ class Value:
             pass
         elif whether:
 
+            if not self.CAN_BE_ANIMATED:
+                raise TypeError(
+                        f"A {self.__class__.__name__} can't be animated.")
+
             if adjust_contents:
                 # Not self.value, which may be less exact than we are.
                 former_value = self.__class__(copy.copy(self._tag))
-- 
2.43.0


From bb9da2a182b74f5867716e44e8c667a1e0320480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 69/77] fix: a vector equals a dict of its members

A vector can be set to a dict such as {'x': 1.0, 'y': 2.0}, but
comparing it with that dict compared its members with the dict's keys.
---
 sangfroid/value/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index b1afc74..be704d4 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -132,6 +132,9 @@ class Vector(Value):
         if self._either_is_animated(other):
             return self._has_same_timeline_as(other)
 
+        if isinstance(other, dict):
+            return dict(self.items())==other
+
         try:
             if len(other)!=len(self):
                 return False
-- 
2.43.0


From fda3534d100c3c6bcc17e5045a3122a96451a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:09 +0000
Subject: [PATCH 70/77] fix: as_python_expression gives expressions

Blend methods gave 'v.12', which isn't Python, and colours and the
zero time gave something other than a string.
---
 sangfroid/value/blendmethod.py | 5 ++++-
 sangfroid/value/color.py       | 2 +-
 sangfroid/value/simple.py      | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index a6a88fa..64e72eb 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -45,4 +45,7 @@ class BlendMethod(Integer):
         return cls(v.value)
 
     def as_python_expression(self):
-        return 'v.'+str(self)
+        for name, number in vars(BlendMethod).items():
+            if name.isupper() and number==self.value:
+                return f'v.BlendMethod.{name}'
+        return str(self)
diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index c6270e9..7bd71aa 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -111,4 +111,4 @@ class Color(Value):
             self._tag.append(dimension_tag)
 
     def as_python_expression(self):
-        return self.as_tuple()
+        return repr(self.as_tuple())
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index ae905b1..a562994 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -169,6 +169,6 @@ class Time(Simple):
         v = self.value
 
         if v==0:
-            return 0
+            return '0'
         else:
             return repr(str(v))
-- 
2.43.0


From df2b2fc1361e7236b5f492b8ee610192a62a8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 71/77] fix: times can be read in animations whose files leave
 out the frame rate or length

Animation.fps, begin_time and end_time have defaults, but every
time in such an animation raised KeyError.
---
 sangfroid/t.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 42e5743..6934a87 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -86,7 +86,7 @@ class T:
         if root_tag is None:
             self._fps = None
         else:
-            self._fps = float(root_tag['fps'])
+            self._fps = float(_attr_or_default(root_tag, 'fps'))
         
             if self._fps<=0.0:
                 raise ValueError(f"FPS must be positive: {self._fps}")
@@ -108,11 +108,11 @@ class T:
 
                     animation_duration = 1+(
                             self._parse_time_spec(
-                                root_tag.attrs['end-time'],
+                                _attr_or_default(root_tag, 'end-time'),
                                 )
                             - 
                             self._parse_time_spec(
-                                root_tag.attrs['begin-time'],
+                                _attr_or_default(root_tag, 'begin-time'),
                                 )
                             )
 
@@ -318,6 +318,17 @@ TIMESPEC_RE = re.compile(
         r'(-?[0-9.]+(?:[eE][-+]?[0-9]+)?[hmsf])'
         )
 
+# What an animation has if its file doesn't say.
+# These are the same as the defaults of the fields of Animation.
+CANVAS_DEFAULTS = {
+        'fps': '24.0',
+        'begin-time': '0f',
+        'end-time': '5s',
+        }
+
+def _attr_or_default(root_tag, name):
+    return root_tag.attrs.get(name, CANVAS_DEFAULTS[name])
+
 def _canvas_root(tag):
     parents = tag.find_parents()
 
-- 
2.43.0


From cf15fffe7b557aef35c1037a9acba2cc27e53a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:28 +0000
Subject: [PATCH 72/77] fix: several spaces together are not letters, letter at
 a time

---
 bywords/bywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index e742e21..61bd649 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -96,7 +96,7 @@ class BywordsGroup:
                             letters = len(word),
                             ))
 
-                if words and words[0].strip()=='':
+                while words and words[0].strip()=='':
                     i += len(words.pop(0))
 
             s = s[len(item.desc):]
-- 
2.43.0


From ca11e78ae4814f1dbcd24fa0eeb89978ae6335de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 73/77] fix: a keyframe whose file doesn't say is active

---
 sangfroid/keyframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/keyframe.py b/sangfroid/keyframe.py
index 626fb76..a8f30b2 100644
--- a/sangfroid/keyframe.py
+++ b/sangfroid/keyframe.py
@@ -16,7 +16,8 @@ class Keyframe:
 
     @property
     def active(self):
-        if self._tag['active']=='true':
+        # Files from before Synfig could switch keyframes off don't say.
+        if self._tag.get('active', 'true')=='true':
             return True
         else:
             return False
-- 
2.43.0


From 6edd4f15e80cfefa8cd32deb0d777cc26875e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:22 +0000
Subject: [PATCH 74/77] fix: bytes are not times

---
 sangfroid/t.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 6934a87..19f4670 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -98,6 +98,9 @@ class T:
                 # Already resolved, so a negative count doesn't
                 # mean "from the end" here.
                 self._frames = value._frames
+            elif isinstance(value, (bytes, bytearray, memoryview)):
+                # float() would read these as if they were text
+                raise TypeError(type(value))
             else:
                 self._frames = float(value)
 
-- 
2.43.0


From 506d90995c24ae7fe54de64967e1d6187ade4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:21 +0000
Subject: [PATCH 75/77] fix: find_all() with True or a callable ignored its
 other criteria

---
 sangfroid/layer/layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index c622e40..25826bf 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -239,7 +239,7 @@ class Layer:
 
             found_layer = Layer.from_tag(found_tag)
 
-            if matching_special is None:
+            if matching_special is None or kwargs:
 
                 logger.debug("want: %s", kwargs)
 
@@ -266,6 +266,8 @@ class Layer:
                         return False
 
                 logger.debug("  -- a match!")
+
+            if matching_special is None:
                 return bool(kwargs)
 
             elif isinstance(matching_special, bool):
-- 
2.43.0


From d433fab91f95103cc6ab32b5db27e3376b3d135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:24 +0000
Subject: [PATCH 76/77] fix: printing a text layer with animated text, or none

---
 sangfroid/layer/text.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/text.py b/sangfroid/layer/text.py
index 3dc1537..e108b4f 100644
--- a/sangfroid/layer/text.py
+++ b/sangfroid/layer/text.py
@@ -60,6 +60,16 @@ class Text(Layer):
 
     def __repr__(self):
         result = super().__repr__()[:-1]
-        result += ' ' + repr(self.text.value) + ']'
+
+        try:
+            text = self.text
+        except AttributeError:
+            # the file doesn't say
+            return result + ']'
+
+        if text.is_animated:
+            result += ' ' + str(text) + ']'
+        else:
+            result += ' ' + repr(text.value) + ']'
 
         return result
-- 
2.43.0


From e911da12c4bcf1298cf0dbf89fe0d97215467284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:26 +0000
Subject: [PATCH 77/77] fix: an animated gradient prints as animated, like
 everything else

---
 sangfroid/value/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 42714ae..7e71528 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -68,7 +68,7 @@ class Gradient(Value):
     def __iter__(self):
         yield from iter(self.value)
 
-    def __str__(self):
+    def _str_inner(self):
         return (
                 '{' +
                 ','.join([f'{k}:{v}' for k,v in self.items()]) +
-- 
2.43.0

