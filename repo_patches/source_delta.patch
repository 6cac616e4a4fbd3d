From 75a316c71137c6d89e6eeea222c65f6806669d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 01/38] fix: represent ranges with tuple endpoints without a
 formatting error

---
 vistautils/range.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..e2f875a 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -258,13 +258,13 @@ class _BelowValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "[%s" % self._endpoint
+        return "[%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s)" % self._endpoint
+        return "%s)" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "\\\\%s/" % self._endpoint
+        return "\\\\%s/" % (self._endpoint,)
 
 
 @attrs(frozen=True, slots=True, repr=False, hash=False, eq=False)
@@ -295,13 +295,13 @@ class _AboveValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "(%s" % self._endpoint
+        return "(%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s]" % self._endpoint
+        return "%s]" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "/%s\\\\" % self._endpoint
+        return "/%s\\\\" % (self._endpoint,)
 
 
 # must initialize after declaring Range
-- 
2.43.0


From d5a286e9e35e74b716f96b40ee08fa3c93b976d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 02/38] fix: keep unbounded ranges equal to themselves across
 copying and pickling

---
 vistautils/range.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index e2f875a..d36e739 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -191,6 +191,11 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # comparisons rely on there being only one instance, so copying and unpickling
+        # must give back the constant
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -224,6 +229,11 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # comparisons rely on there being only one instance, so copying and unpickling
+        # must give back the constant
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From ab234024657fbd0dd9b5cc16e4a329ac6ba1f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 03/38] fix: make equal range sets and range maps hash alike

---
 vistautils/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index d36e739..83df814 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -787,7 +787,8 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        # the view returned by as_ranges() hashes by identity
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From 569df8e90ce01d63c0e25c3d8865d656cc9a16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 04/38] fix: let empty range sets survive pickle protocols 0
 and 1

---
 vistautils/range.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 83df814..4607c6f 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -1089,6 +1089,11 @@ class _SortedDictRangeSet(RangeSet[T], metaclass=ABCMeta):
     def __len__(self) -> int:
         return len(self._ranges_by_lower_bound)
 
+    def __reduce__(self):
+        # pickle protocols 0 and 1 do not call __setstate__ with a falsy state, so an empty
+        # range set must already be valid when it is constructed
+        return (self.__class__, (SortedDict(),), self.__getstate__())
+
     def __setstate__(self, state: Iterable[Range[T]]) -> None:
         self._ranges_by_lower_bound = SortedDict(
             [(rng._lower_bound, rng) for rng in state]
-- 
2.43.0


From 975e82d35f33c49a5eb16916f9b8a551f66bcabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 05/38] fix: do not record the key of a failed put in a zip
 key-value sink

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..6cdf7e3 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        # only after the value has been written, so that a failed put leaves no trace
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From 7f4496b2edf8819c519aa2a73233f8ae8b1fb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 06/38] fix: forget keys of earlier sessions when a zip
 key-value sink is re-entered

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 6cdf7e3..5d74a6a 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -495,6 +495,8 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        # forget any keys from a previous use of this sink: the file says what is there now
+        self._keys.clear()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From 38ecf630360b36c57798b00d0d7240683feadc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 07/38] fix: make the 'file-map' source type read the
 doc-id-to-file map

---
 vistautils/key_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 5d74a6a..8616486 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -838,12 +838,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
-- 
2.43.0


From a26f6f71eba38fe8149514eabdfd21685b1d2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 08/38] fix: give bytes, not text, from a byte key-value source
 of no specified type

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 8616486..7152fdb 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1013,7 +1013,7 @@ def byte_key_value_source_from_params(
         input_namespace,
         KeyValueSource,
         special_factories=_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES,
-        default_factory=_doc_id_source_from_params,
+        default_factory=_doc_id_binary_source_from_params,
         context=effective_context,
         factory_namespace_param_name="type",
     )
-- 
2.43.0


From aac0af665af7acf3b263a0b293ca9d1a96dc5a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 09/38] fix: accept the documented 'directory' type for
 key-value sinks

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 7152fdb..cf11727 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1022,11 +1022,13 @@ def byte_key_value_source_from_params(
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
 }
 
 
-- 
2.43.0


From 9e5bd0eed6f57db01158fdebc77823db805f805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 10/38] fix: use the default value or factory for a namespace
 which names neither

---
 vistautils/parameters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..b59cdf6 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -999,6 +999,15 @@ class Parameters:
                 # The general case is that the user has a namespace providing all the information
                 # for evaluation.
                 namespace = self.namespace(name)
+                if (
+                    value_namespace_param_name not in namespace
+                    and factory_namespace_param_name not in namespace
+                ):
+                    # The namespace only provides parameters for the defaults, if there are any.
+                    if default_value is not None:
+                        return validate(default_value)
+                    elif default_factory is not None:
+                        return validate(apply_factory(default_factory, namespace))
                 namespace.assert_exactly_one_present(
                     [value_namespace_param_name, factory_namespace_param_name]
                 )
-- 
2.43.0


From 0f05317b1c53f1b4dfd4fa1ea000135bf8ed50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 11/38] fix: give default-constructed objects the right
 namespace prefix

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index b59cdf6..bb4f5c8 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1377,7 +1377,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From 0917a06ee6db5ef15f087ea526e1ef5ddfd74f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 12/38] fix: downsample key-value stores on Python versions
 without shuffle's random argument

---
 vistautils/scripts/downsample_key_value_store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..c34a8f6 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,7 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 160c84103192cdbada2929290974df3feb7026cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 13/38] fix: strip all of .tar.gz when naming the converted zip
 file

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From 460b05c95d75cb195b266adac7bfe59454b5e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 14/38] fix: convert tar files with directories without
 streaming

---
 vistautils/scripts/tar_gz_to_zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..09cae3c 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -68,7 +68,8 @@ def main():
                 for member in inp:
                     if member.isfile():
                         out.write(member.name)
-                    os.remove(member.name)
+                    if not member.isdir():
+                        os.remove(member.name)
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From d4bf00225e6cd1a5e311e239fb5d9c7e10937bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 15/38] fix: count a second element which equals everything in
 only()

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From b6c6a42f8d4a2514f75330406f33ad6a9c459882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 16/38] fix: check that splits of doc-id-to-file maps are
 exhaustive without failing

---
 vistautils/scripts/split_key_value_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..b59be04 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -115,7 +115,7 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                     raise RuntimeError(error_message)
 
     if params.boolean("must_be_exhaustive", default=True):
-        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
+        keys_not_copied = immutableset(list(source.keys())) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
                 f"Expected the split to be a partition, but "
-- 
2.43.0


From efe44511dad795845a92788381ae1a1c1c0c01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 17/38] fix: find the minimal span enclosing spans given by an
 iterator

---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..39f8aa3 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # we go through the spans twice, so they may not be a one-shot iterator
+        spans = tuple(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From e4e6e9df1d2ace479bfcae6927796a37adf5b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 18/38] fix: refuse different items with the same span in
 disjoint span indexes

---
 vistautils/span.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 39f8aa3..542fdde 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -215,7 +215,16 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    range_item_pairs = tuple((span.as_range(), item) for span, item in inp)
+    ret = immutablerangemap(range_item_pairs)
+    # a range map keeps only one value for equal ranges instead of rejecting them
+    for rng, item in range_item_pairs:
+        check_arg(
+            ret.rng_to_val[rng] == item,
+            "Spans must be disjoint but multiple items have the offsets %s",
+            (rng,),
+        )
+    return ret
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 974d121562ed3d73582382884ce3601f8ec0d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 19/38] fix: do not take equal items for one item containing a
 span

---
 vistautils/span.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 542fdde..d9e2ad5 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -250,12 +250,12 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
+        # different items can be equal, so it won't do to compare the items at both ends
+        enclosing_range = self._range_to_item_index.range_set.range_enclosing_range(
+            span.as_range()
+        )
+        if enclosing_range is not None:
+            return self._range_to_item_index.rng_to_val[enclosing_range]
         return None
 
 
-- 
2.43.0


From 0ef54d14fa7bde13d363c363353c2faf1a2f9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 20/38] fix: nest annotations on the same span properly

---
 vistautils/annotated_text_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..720310b 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -179,7 +179,8 @@ class HTMLStyleAnnotationFormatter:
         )
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            # of annotations on the same span, those which start first must end last
+            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From 7fcf627a8b340d07e1bd268bc00c3fb77fee5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 21/38] fix: format the empty text

---
 vistautils/annotated_text_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 720310b..037166e 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -91,6 +91,9 @@ class HTMLStyleAnnotationFormatter:
         paragraph from a document.
         """
         if not text_offsets:
+            if not text:
+                # there are no empty spans, and no annotation could be on an empty text
+                return ""
             text_offsets = Span.from_inclusive_to_exclusive(0, len(text))
         check_arg(
             len(text_offsets) == len(text),
-- 
2.43.0


From c5b9e9a27c1422c05e09fe8a5f0cafb9680310da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 22/38] fix: honour defaults which count as false, like 0 and
 the empty list

---
 vistautils/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index bb4f5c8..f371480 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -457,7 +457,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
@@ -611,7 +611,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -670,7 +670,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -791,7 +791,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From 3cc05486c27b5d0293c494d5ee03c5ece4f10950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 23/38] fix: interpolate values which count as false, like 0
 and the empty string

---
 vistautils/parameters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index f371480..f43fb65 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1647,7 +1647,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not None
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1666,7 +1669,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not None:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1685,7 +1688,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is None:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From d36b0a0021e70540e27e7c63fd50bc24fbe43673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 24/38] fix: load parameters when an environment variable's
 name contains a '.'

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index f43fb65..10d2674 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1522,7 +1522,8 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # (and could not be referred to if there is a "." in their names)
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From 346b227ee09f82741b709c9487e29a89c6ed3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 25/38] fix: list parameters of nested namespaces made on their
 own under their full names

---
 vistautils/parameters.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 10d2674..574e025 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -175,15 +175,18 @@ class Parameters:
         where the param names are "fully-qualified"
         (that is, they are prefixed with their namespaces)
         """
-        for (key, value) in self._data.items():
-            if isinstance(value, Parameters):
-                for (param_name, value) in value.namespaced_items():
-                    yield param_name, value
-            else:
-                prefix = ".".join(self.namespace_prefix) + (
-                    "." if self.namespace_prefix else ""
-                )
-                yield f"{prefix}{key}", value
+
+        # nested Parameters which were made on their own do not know their full prefix
+        def items_within(
+            params: Parameters, prefix: Tuple[str, ...]
+        ) -> Iterable[Tuple[str, Any]]:
+            for (key, value) in params._data.items():
+                if isinstance(value, Parameters):
+                    yield from items_within(value, prefix + (key,))
+                else:
+                    yield ".".join(prefix + (key,)), value
+
+        return items_within(self, self.namespace_prefix)
 
     def unify(
         self,
-- 
2.43.0


From f51da733221250aafb7a1febfe834bdb63d60deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 26/38] fix: do not drop a namespace when its name is also
 given as a key

---
 vistautils/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 574e025..2c184df 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -145,6 +145,10 @@ class Parameters:
                         if key_part not in to_set_dict:
                             to_set_dict[key_part] = {}
                         to_set_dict = to_set_dict[key_part]
+                if isinstance(to_set_dict.get(bottom_level_param_name), dict):
+                    raise RuntimeError(
+                        f"{k} is specified both as a parameter and as a namespace"
+                    )
                 to_set_dict[bottom_level_param_name] = v
             else:
                 raise RuntimeError("Parameter names cannot be the empty string")
-- 
2.43.0


From d6845198fc9b4e233cce468d2d60d4401f6be96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 27/38] fix: refuse include directives which are not lists

---
 vistautils/parameters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 2c184df..c3a87d0 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1501,6 +1501,7 @@ class YAMLParametersLoader:
 
             # process and remove special include directives
             if "_includes" in raw_yaml:
+                check_isinstance(raw_yaml["_includes"], list)
                 for included_file in raw_yaml["_includes"]:
                     _logger.info("Processing included parameter file %s", included_file)
                     if not os.path.isabs(included_file):
-- 
2.43.0


From ae6744045cc796378bf9ec162e0421b8a9d62f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 28/38] fix: use the special factory for a parameter which
 names one

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index c3a87d0..7ffb8af 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1061,7 +1061,7 @@ class Parameters:
                 elif requested_param_string_value in special_factories:
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factories[requested_param_string_value],
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From 0fda76de6475a271b4f3e827f920bdbe896906eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 29/38] fix: use special values and factories given in
 namespaces as they are

---
 vistautils/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 7ffb8af..945d9fc 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1020,6 +1020,14 @@ class Parameters:
                 )
                 if value_namespace_param_name in namespace:
                     # The user specifies the value to be evaluated directly
+                    # unless it is one of the special values or factories.
+                    requested_value = namespace.string(value_namespace_param_name)
+                    if requested_value in special_values:
+                        return validate(special_values[requested_value])
+                    elif requested_value in special_factories:
+                        return validate(
+                            apply_factory(special_factories[requested_value], namespace)
+                        )
                     return validate(
                         self.evaluate(
                             name,
-- 
2.43.0


From 37a56f6977ef494a2d5bdc05d3e92f0d1194418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 30/38] fix: run entry points on parameters specified in the
 program

---
 vistautils/parameters_only_entrypoint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..e9a0e1c 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -65,7 +65,10 @@ def _real_parameters_only_entry_point(
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters:
+        params = parameters
+    else:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From 96213544f32e80921c439c17a47a0ca1d3945ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 31/38] fix: list sub-namespaces which hold lists

---
 vistautils/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 945d9fc..7c729e9 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -52,7 +52,7 @@ _U = TypeVar("_U")  # pylint:disable=invalid-name
 _EnumType = TypeVar("_EnumType", bound=Enum)
 
 
-@attrs(frozen=True, slots=True)
+@attrs(frozen=True, slots=True, hash=False)
 class Parameters:
     """
     Configuration parameters for a program.
@@ -86,6 +86,10 @@ class Parameters:
                 "." not in key, "Parameter keys cannot contain namespace separator '.'"
             )
 
+    def __hash__(self) -> int:
+        # parameter values, like lists, need not be hashable
+        return hash((frozenset(self._data), self.namespace_prefix))
+
     @staticmethod
     def empty(*, namespace_prefix: Iterable[str] = tuple()) -> "Parameters":
         """
-- 
2.43.0


From 98216184718fb202b9e009aa8f9c1825aa634aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 32/38] fix: write and print parameters which hold nulls and
 dates

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 7c729e9..5a90768 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1798,7 +1798,8 @@ class YAMLParametersWriter:
             return str(param_node)
         elif isinstance(param_node, Mapping):
             return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-        elif isinstance(param_node, (str, int, float)):
+        # nulls and dates are what YAML files may hold besides
+        elif param_node is None or isinstance(param_node, (str, int, float, date)):
             return param_node
         # we need to check this explicitly because otherwise
         # they would trigger the check for sequences below
-- 
2.43.0


From 00e198a9bef0a2fcf4df1b0970f43613e9132c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 33/38] fix: check_opt_isinstance no longer accepts falsy
 values of other types

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From da4be001423b0d1c4d949ac87e9de94610fe7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 34/38] fix: whether a tar member is empty is that of what it
 reads, also for links

---
 vistautils/io_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..e43ddfb 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -244,8 +244,9 @@ class _FileWithinTgzCharSource(CharSource):
         return ret
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
-        return tgz_file.getmember(self._path_within_tgz).size == 0
+        # the size of a member says nothing about its content if it is a link
+        with self.open() as inp:
+            return inp.read(1) == ""
 
 
 class CharSink(metaclass=ABCMeta):
-- 
2.43.0


From 51872aba1096e94adfaf8e4e29fe775d6a3a92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 35/38] fix: the validator non_empty accepted empty values

---
 vistautils/attrutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/attrutils.py b/vistautils/attrutils.py
index 9722bbf..d7053bb 100644
--- a/vistautils/attrutils.py
+++ b/vistautils/attrutils.py
@@ -140,4 +140,6 @@ def _empty_immutable_if_none(
 # Unused arguments are to match the attrs validator signature
 # noinspection PyUnusedLocal
 def non_empty(_self: Any, _attr: Any, val: Sized) -> bool:
-    return len(val) > 0
+    # attrs ignores what validators return, so failure has to be an exception
+    vistautils.preconditions.check_arg(len(val) > 0, "Value may not be empty")
+    return True
-- 
2.43.0


From f3a9d0f630a27da0b07612421edfa3e8bc00669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:16 +0000
Subject: [PATCH 36/38] fix: what is written to a string or buffer sink is kept
 however its file is closed

The files opened by StringCharSink and BufferByteSink recorded what was written only on leaving a with block; after close() it was lost.
---
 vistautils/io_utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index e43ddfb..5cfaa55 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -577,9 +577,11 @@ class StringCharSink(CharSink):
         outer_self = self
 
         class StringFileLike(io.StringIO):
-            def __exit__(self, exc_type, exc_val, exc_tb):
-                outer_self.last_string_written = self.getvalue()
-                super().__exit__(exc_type, exc_val, exc_tb)
+            def close(self):
+                # leaving a `with` block closes the file as well
+                if not self.closed:
+                    outer_self.last_string_written = self.getvalue()
+                super().close()
 
         return StringFileLike()
 
@@ -636,9 +638,11 @@ class BufferByteSink(ByteSink):
         outer_self = self
 
         class BytesFileLike(io.BytesIO):
-            def __exit__(self, exc_type, exc_val, exc_tb):
-                outer_self.last_bytes_written = self.getvalue()
-                super().__exit__(exc_type, exc_val, exc_tb)
+            def close(self):
+                # leaving a `with` block closes the file as well
+                if not self.closed:
+                    outer_self.last_bytes_written = self.getvalue()
+                super().close()
 
         return BytesFileLike()
 
-- 
2.43.0


From 68a9dbcbf2e1b5553a16360d9bd275510944e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 37/38] fix: a gzip source holding only a byte order mark is
 empty

---
 vistautils/io_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 5cfaa55..d30bf8b 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -210,9 +210,9 @@ class _GZipFileSource(CharSource):
         return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
 
     def is_empty(self) -> bool:
-        with gzip.open(self._path) as inp:
-            data = inp.read(1)
-        return len(data) == 0
+        # the encoding of an empty text need not be empty: it can be a byte order mark
+        with self.open() as inp:
+            return inp.read(1) == ""
 
 
 @attrs(slots=True, frozen=True)
-- 
2.43.0


From 1d16d43fe862234ea7bbe456c5b5d0991e67e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:36 +0000
Subject: [PATCH 38/38] fix: make annotated spans with attributes given as
 dictionaries

---
 vistautils/annotated_text_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 037166e..207c7ff 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -22,6 +22,13 @@ DIV = "div"
 SPAN = "span"
 
 
+def _to_immutabledict(attributes):
+    # immutabledict refuses built-in dicts on Python versions it does not know
+    if isinstance(attributes, dict):
+        return immutabledict(attributes.items())
+    return immutabledict(attributes)
+
+
 @attrs(frozen=True, slots=True)
 class AnnotatedSpan:
     """
@@ -37,7 +44,7 @@ class AnnotatedSpan:
     label: str = attrib(validator=instance_of(str))
     span: Span = attrib(validator=instance_of(Span))
     attributes: Mapping[str, str] = attrib(
-        default=immutabledict(), converter=immutabledict
+        default=immutabledict(), converter=_to_immutabledict
     )
 
     @staticmethod
-- 
2.43.0

