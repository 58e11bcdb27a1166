From de03b02c526f31438821a25909b7deef98a00eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 01/57] fix: load each included document once, under the first
 document including it

---
 src/disseminate/document/document.py | 70 ++++++++++++++--------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..0533354 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -431,6 +431,23 @@ class Document(object):
 
         return mtime
 
+    def _placed_documents(self):
+        """The src_filepaths of the documents that are already placed in the
+        project's tree: this document, its parents and their sub-documents.
+
+        Returns
+        -------
+        src_filepaths : Set[:obj:`SourcePath <.paths.SourcePath>`]
+            The src_filepaths
+        """
+        src_filepaths = set()
+        document = self
+        while document is not None:
+            src_filepaths |= set(document.documents_dict(recursive=True))
+            parent_context = document.context.parent_context
+            document = getattr(parent_context, 'document', None)
+        return src_filepaths
+
     def load_subdocuments(self, level=1):
         """Load the sub-documents listed in the include entries in the
         context.
@@ -448,61 +465,42 @@ class Document(object):
         """
         document_loaded = False
 
-        # Get the root document's src_filepath and the src_filepath for all of
-        # its included subdocuments to make sure we do not load documents
-        # recursively or twice
-        root_document = self.context.get('root_document', None)
-        root_document = root_document() if root_document is not None else None
-
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
-
-        # Get a dict with all documents owned by this document. This document
-        # can control those documents, but it cannot control other documents in
-        # the root_dict. This avoids recursion.
-        subs_dict = self.documents_dict(only_subdocuments=False,
-                                        recursive=True)
-
-        # Clear the subdocuments ordered dict and add new entries. Old entries
-        # will automatically be deleted if the subdocument no longer holds a
-        # reference to it.
+        # Keep the sub-documents that were loaded for this document, then clear
+        # the subdocuments ordered dict and add new entries. Old entries will
+        # automatically be deleted if the subdocument no longer holds a
+        # reference to it. A document only reuses its own sub-documents, since
+        # these inherit from this document's context.
+        previous = self.subdocuments.copy()
         self.subdocuments.clear()
 
         # Retrieve the file paths of included files in the context
         src_filepaths = self.context.includes
 
         for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
+            # A document is only placed once in a project, and a document
+            # shouldn't have itself (or one of its parents) as a subdocument.
+            if src_filepath in self._placed_documents():
                 continue
 
-            # If the document is already loaded and controlled by this
-            # document, copy it to the subdocuments ordered dict
-            elif src_filepath in subs_dict:
-                subdoc = subs_dict[src_filepath]
+            # If the document was already loaded for this document, place it
+            # back before loading it, so that its sub-documents cannot
+            # place it again.
+            elif src_filepath in previous:
+                subdoc = previous[src_filepath]
+                self.subdocuments[src_filepath] = subdoc
                 document_loaded |= subdoc.load(level=level + 1)
 
-                if self.src_filepath not in subdoc.subdocuments:
-                    self.subdocuments[src_filepath] = subdoc
-
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
+            # The document could not be found, at this point. Create it.
+            else:
                 subdoc = Document(src_filepath=src_filepath,
                                   environment=environment,
                                   parent_context=self.context,
                                   level=level + 1)
                 self.subdocuments[src_filepath] = subdoc
                 document_loaded |= True
-            else:
-                continue
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 6b12edcd5c1c32cd80844ae1e9abb0472a65c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 02/57] fix: normalize include paths so that a document has one
 identity

---
 src/disseminate/document/document_context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/document/document_context.py b/src/disseminate/document/document_context.py
index bcc4cab..81f18dc 100644
--- a/src/disseminate/document/document_context.py
+++ b/src/disseminate/document/document_context.py
@@ -1,6 +1,7 @@
 """
 The document context
 """
+import os
 import weakref
 from copy import deepcopy
 
@@ -335,7 +336,9 @@ class DocumentContext(BaseContext):
         subpath = src_filepath.subpath.parent
         project_root = src_filepath.project_root
 
+        # The paths are normalized (ex: 'sub/../file.dm' is 'file.dm') so that
+        # a document is always identified by the same path.
         includes = [SourcePath(project_root=project_root,
-                               subpath=subpath / path)
+                               subpath=os.path.normpath(subpath / path))
                     for path in includes]
         return includes
-- 
2.43.0


From 6f3c51e6c178cf7ce4c333f5edd993633432932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 03/57] fix: use the doc_id of the header to identify a
 document and its labels

---
 src/disseminate/document/document.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 0533354..e9d4801 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -109,8 +109,13 @@ class Document(object):
     @property
     def doc_id(self):
         """The unique string identifier (within a project) for the document."""
-        # The subpath of the src_filepath is guaranteed to be unique.
-        return str(self.src_filepath.subpath)
+        # The doc_id may be set in the header of the document.
+        context = getattr(self, 'context', None)
+        doc_id = context.get('doc_id', None) if context is not None else None
+
+        # Otherwise, the subpath of the src_filepath is guaranteed to be unique.
+        return (str(doc_id) if doc_id is not None else
+                str(self.src_filepath.subpath))
 
     @property
     def doc_ids(self):
-- 
2.43.0


From c02b25a40bc4f332f7c4111cf041e5d1b6cace82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 04/57] fix: clear weak attributes (stale chapter/section
 labels) when None is assigned

---
 src/disseminate/utils/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..65f8ad0 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,10 +135,11 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
+        if value is None:  # clear the attribute if None is assigned
+            weakref_dict.pop(attrname, None)
+            return
         weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
-- 
2.43.0


From 3665bf9dca279b462e78797f3582bdd9da666f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 05/57] fix: render references in the default (txt) format

---
 src/disseminate/tags/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..46680ca 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -224,8 +224,8 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label.id, *keys)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
-- 
2.43.0


From ceb22f6b6776aa5e34da25a9264c5f3adf0b2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:56 +0000
Subject: [PATCH 06/57] fix: reference a document that isn't rendered in the
 target without a link

---
 src/disseminate/tags/ref.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 46680ca..aebd0cf 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -4,6 +4,7 @@ The Ref tag to reference captions and other labels.
 from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
+from ..document.exceptions import TargetNotFound
 from ..label_manager.types import DocumentLabel
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
@@ -184,9 +185,10 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
-
-        if target_filepath is None:
+        try:
+            target_filepath = document.target_filepath(target)
+        except TargetNotFound:
+            # The label's document isn't rendered in this target
             return None
 
         link = target_filepath.get_url(context=self.context)
@@ -362,8 +364,10 @@ class Ref(Tag):
             # for a DocumentLabel. DocumentLabels should just point to the
             # file itself.
             include_anchor = not isinstance(label, DocumentLabel)
-            attrs['href'] = self.url(target=method, cache=cache,
-                                     include_anchor=include_anchor)
+            url = self.url(target=method, cache=cache,
+                           include_anchor=include_anchor)
+            if url is not None:
+                attrs['href'] = url
 
             # wrap content in 'a' tag
             return xhtml_tag('a', attributes=attrs, formatted_content=content,
-- 
2.43.0


From dea83ada6cd00b53b828f68f8dfc2ca36ca1a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 07/57] fix: reload all sub-documents that inherit from a
 reloaded document

---
 src/disseminate/document/document.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index e9d4801..b710096 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -398,7 +398,10 @@ class Document(object):
         # Load the sub-documents. This is done after processing the string
         # and ast since these may include sub-files, which should be read
         # in before being loaded.
-        document_loaded |= self.load_subdocuments(level=level + 1)
+        # If this document was (re)loaded, then its sub-documents have to be
+        # reloaded as well, since they inherit from its context.
+        document_loaded |= self.load_subdocuments(level=level + 1,
+                                                  reload=document_loaded)
 
         # Emit a signal if this is the root document and a document (or sub-
         # document) was reloaded
@@ -453,7 +456,7 @@ class Document(object):
             document = getattr(parent_context, 'document', None)
         return src_filepaths
 
-    def load_subdocuments(self, level=1):
+    def load_subdocuments(self, level=1, reload=False):
         """Load the sub-documents listed in the include entries in the
         context.
 
@@ -462,6 +465,8 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        reload : Optional[bool]
+            If True, force the reload of the sub-documents.
 
         Returns
         -------
@@ -496,7 +501,8 @@ class Document(object):
             elif src_filepath in previous:
                 subdoc = previous[src_filepath]
                 self.subdocuments[src_filepath] = subdoc
-                document_loaded |= subdoc.load(level=level + 1)
+                document_loaded |= subdoc.load(level=level + 1,
+                                               reload=reload)
 
             # The document could not be found, at this point. Create it.
             else:
-- 
2.43.0


From 4c915807d826eea44ac75ffd336493bbbc2e9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 08/57] fix: do not share nested containers between the
 contexts of documents

---
 src/disseminate/context/context.py | 35 +++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..ee7d544 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -18,6 +18,29 @@ class ContextException(Exception):
     pass
 
 
+def copy_containers(value):
+    """Copy dicts, lists and sets, including the dicts, lists and sets nested
+    in these.
+
+    Parameters
+    ----------
+    value : Any
+        The value to copy
+
+    Returns
+    -------
+    copy : Any
+        The copied container, or the value itself if it's not a container.
+    """
+    if type(value) is dict:
+        return {k: copy_containers(v) for k, v in value.items()}
+    elif type(value) is list:
+        return [copy_containers(v) for v in value]
+    elif type(value) is set:
+        return set(value)
+    return value
+
+
 class BaseContext(dict):
     """A context dict with entries used for rendering target documents.
 
@@ -227,8 +250,8 @@ class BaseContext(dict):
         .. note:: Entries in the parent_context are copied to this context.
                   If the parent_context entry is a mutable, like a list or
                   dict, then a copy of that mutable is created if a 'copy'
-                  method exists for that mutable. However, mutables within
-                  those mutables will still point to the original.
+                  method exists for that mutable. Dicts, lists and sets within
+                  those mutables are copied as well.
 
         Examples
         --------
@@ -396,6 +419,12 @@ class BaseContext(dict):
             #    original--whether the key is actually in the original or in
             #    the parent_context
             if key not in self.keys():
+                # Containers are copied with the containers they hold, so that
+                # a change in this context doesn't change the original.
+                if type(change_value) in (dict, list, set):
+                    self[key] = copy_containers(change_value)
+                    continue
+
                 try:
                     # Try making a copy. Some objects, like tags, take a
                     # new_context parameter to set the new context in the
@@ -434,7 +463,7 @@ class BaseContext(dict):
             if isinstance(original_value, list):
                 change_value = (str_to_list(change_value)
                                 if isinstance(change_value, str) else
-                                list(change_value))
+                                copy_containers(list(change_value)))
                 original_value[0:0] = change_value  # prepend to top
 
             # 3. *sets*. Create a copy from changes
-- 
2.43.0


From ddd6745b45da0b66878c2d3a28992ef564275009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:26 +0000
Subject: [PATCH 09/57] fix: labels with the same id in different documents
 show their own title and number

---
 src/disseminate/label_manager/label_manager.py | 15 +++++++++++++--
 src/disseminate/tags/headings.py               |  3 ++-
 src/disseminate/tags/label.py                  | 16 +++++++++++++---
 src/disseminate/tags/ref.py                    |  8 +++++---
 src/disseminate/tags/toc.py                    | 17 +++++++++++------
 5 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index ba6d983..a3e6046 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -232,6 +232,13 @@ class LabelManager(object):
         if (doc_id, label_id) in self.labels:
             return self.labels[(doc_id, label_id)]
 
+        # Try the label of the document adding the label, if no doc_id is
+        # specified
+        own_key = (context.get('doc_id', None) if context is not None
+                   else None, label_id)
+        if doc_id is None and own_key in self.labels:
+            return self.labels[own_key]
+
         # Try to find the first label with a matching label_id, if no
         # doc_id is specified
         if doc_id is None:
@@ -331,7 +338,7 @@ class LabelManager(object):
 
         return returned_labels
 
-    def format_string(self, id, *keys, target=None):
+    def format_string(self, id, *keys, target=None, label=None):
         """Retrieve the formatted label string for a label.
 
         Label format strings are intended to be replaced with the values of the
@@ -347,8 +354,12 @@ class LabelManager(object):
             dict. (see :func:`find_entry <disseminate.utils.dict.find_entry>`)
         target : Optional[str]
             If specified, try finding format strings for the given target.
+        label : Optional[:obj:`Type[Label] <.label_manager.types.Label>`]
+            If specified, format this label instead of searching the label
+            with the given id. (Labels in different documents may have the
+            same id.)
         """
-        label = self.get_label(id=id)
+        label = label if label is not None else self.get_label(id=id)
 
         dicts = []
         if 'label_fmts' in self.root_context:
diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..c78fb95 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -97,7 +97,8 @@ class Heading(Tag, LabelMixin):
             assert self.context.is_valid('label_manager')
 
             label_manager = self.context['label_manager']
-            label = label_manager.get_label(id=self.label_id)
+            label = label_manager.get_label(id=self.label_id,
+                                            context=self.context)
 
             number = label.order[-1] if label.order else None
             number -= 1  # Offset by -1 as the counter is increased
diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 18f4511..825aa72 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -256,6 +256,13 @@ class LabelTag(Tag):
         if 'id' in self.attributes:
             del self.attributes['id']
 
+    @property
+    def label(self):
+        """The label for this tag. (The labels in other documents may have the
+        same id.)"""
+        return self.label_manager.get_label(id=self.label_id,
+                                            context=self.context)
+
     def default_fmt(self, content=None, attributes=None):
         # Get the label tag format
         label_manager = self.label_manager
@@ -263,7 +270,8 @@ class LabelTag(Tag):
         context = self.context
 
         if all(i is not None for i in (label_manager, label_id, context)):
-            format_str = label_manager.format_string(id=self.label_id)
+            format_str = label_manager.format_string(id=self.label_id,
+                                                     label=self.label)
             processed_tag = Tag(name='label', content=format_str,
                                 attributes='', context=context)
             return content_to_str(processed_tag.content)
@@ -278,7 +286,8 @@ class LabelTag(Tag):
 
         if all(i is not None for i in (label_manager, label_id, context)):
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.tex')
+                                                     target='.tex',
+                                                     label=self.label)
 
             # Process the tags and format the contents for tex
             processed_tag = Tag(name='label', content=format_str,
@@ -301,7 +310,8 @@ class LabelTag(Tag):
             # Retrieve the format string for the label
             # Use the 'html' format_str for html and xhtml
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.html')
+                                                     target='.html',
+                                                     label=self.label)
 
             # Process the tags and format the contents for html (html_fmt) or
             # xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index aebd0cf..180bd13 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -227,7 +227,7 @@ class Ref(Tag):
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys)
+            format_str = label_manager.format_string(label.id, *keys, label=label)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
@@ -275,7 +275,8 @@ class Ref(Tag):
             # Retrieve the format string for the reference
             keys = ('ref', *label.kind)
             format_str = label_manager.format_string(label.id, *keys,
-                                                     target='.tex')
+                                                     target='.tex',
+                                                     label=label)
 
             # process the tags and format the contents
             # for html
@@ -347,7 +348,8 @@ class Ref(Tag):
             # Use the 'html' format_str for html and xhtml
             keys = ('ref', *label.kind)
             format_str = label_manager.format_string(label.id, *keys,
-                                                     target='.html')
+                                                     target='.html',
+                                                     label=label)
 
             # substitute the link, process the tags and format the contents
             # for html (html_fmt) or xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index ac275b7..c1aa10f 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -25,6 +25,15 @@ class TocRef(Ref):
 
     html_name = "li"
 
+    # The label listed by this tag. It is set by the Toc tag since labels in
+    # different documents may have the same id.
+    toc_label = None
+
+    @property
+    def label(self):
+        return (self.toc_label if self.toc_label is not None else
+                super().label)
+
     def tex_fmt(self, content=None, attributes=None, mathmode=False,
                 cache=None, level=1, **kwargs):
         list_level = self.attributes['level']
@@ -184,6 +193,7 @@ class Toc(Tag):
             tag = TocRef(name=tag_name, content=label.id,
                          attributes=self.attributes, context=self.context)
             tag.attributes['level'] = level
+            tag.toc_label = label
 
             tags.append(tag)
 
@@ -204,16 +214,11 @@ class Toc(Tag):
         documents_by_id = (root_document.documents_by_id(recursive=True)
                            if root_document is not None else None)
 
-        # Get the labels
-        labels = self.get_labels()
-        labels_by_id = {label.id: label for label in labels}
-
         for tag in tags:
             listlevel = tag.attributes['level']
-            label = labels_by_id.get(tag.label_id, None)
 
             cache = dict() if cache is None else cache
-            cache['label'] = label
+            cache['label'] = tag.label
             cache['documents_by_id'] = documents_by_id
 
             func = getattr(tag, format_func)
-- 
2.43.0


From e1a57e407fe7578e9782bab3a93b3b0a042b1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 10/57] fix: set the previous and next documents for the
 targets of all documents

---
 src/disseminate/tags/navigation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..d8837f0 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -42,10 +42,7 @@ def set_navigation_labels(root_document):
 
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
+    for target, doc_ids in doc_ids_by_target.items():
 
         for document in documents:
             doc_id = document.doc_id
-- 
2.43.0


From 351e14792f6f8b655d57d23632fc41b8d341dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 11/57] fix: replace nested macros fully and stop at macros
 defined in terms of themselves

---
 src/disseminate/tags/receivers/content.py |  8 +++--
 src/disseminate/tags/receivers/macros.py  | 23 +++++++++++++
 src/disseminate/utils/string.py           | 40 ++++++++++++++---------
 3 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..8ed7417 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -3,6 +3,7 @@ Receivers for processing a tag's contents on tag creation.
 """
 import regex
 
+from .macros import processed
 from ..signals import tag_created
 from ..exceptions import TagError
 from ...utils.string import group_strings
@@ -18,8 +19,11 @@ re_brace = regex.compile(r'[}{]')
 @tag_created.connect_via(order=200)
 def process_content(tag, tag_factory, **kwargs):
     """A receiver to parse the contents of tags into sub-tags."""
-    content = parse_tags(content=tag.content, context=tag.context,
-                         tag_factory=tag_factory)
+    # The macros in this tag's text have been replaced, and they don't have to
+    # be replaced again for the tags created from this text.
+    with processed(tag.content):
+        content = parse_tags(content=tag.content, context=tag.context,
+                             tag_factory=tag_factory)
     tag.content = content
     return tag
 
diff --git a/src/disseminate/tags/receivers/macros.py b/src/disseminate/tags/receivers/macros.py
index 35d5e11..587ab09 100644
--- a/src/disseminate/tags/receivers/macros.py
+++ b/src/disseminate/tags/receivers/macros.py
@@ -1,9 +1,27 @@
 """
 Receivers for processing a tag's macros on tag creation.
 """
+import threading
+from contextlib import contextmanager
+
 from ..signals import tag_created
 from ...utils.string import replace_macros
 
+#: The text of the tag whose contents are being parsed by a thread
+_parsed = threading.local()
+
+
+@contextmanager
+def processed(text):
+    """While in this context, the tags created from parts of the text do not
+    need to have their macros replaced."""
+    previous = getattr(_parsed, 'text', '')
+    _parsed.text = text if isinstance(text, str) else ''
+    try:
+        yield
+    finally:
+        _parsed.text = previous
+
 
 @tag_created.connect_via(order=100)
 def process_macros(tag, **kwargs):
@@ -14,6 +32,11 @@ def process_macros(tag, **kwargs):
     if not isinstance(tag.content, str):
         return None
 
+    # The macros were already replaced in the text of the parent tag. Macros
+    # defined in terms of themselves would otherwise be replaced endlessly.
+    if tag.content in getattr(_parsed, 'text', ''):
+        return None
+
     # Process the entry in the context
     tag.content = replace_macros(tag.content, tag.context)
     return tag
diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..128577f 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -488,12 +488,18 @@ def replace_macros(s, *dicts):
     processed_string : str
         A string with the macros replaced.
 
-    Raises
-    ------
-    MacroNotFound
-        Raises a MacroNotFound exception if a macro was included, but it could
-        not be found.
+    Notes
+    -----
+    Macros in the definition of macros are replaced as well. A macro that is
+    defined in terms of itself is only replaced once within its own
+    definition.
     """
+    return _replace_macros(s, dicts, active=())
+
+
+def _replace_macros(s, dicts, active):
+    """Replace the macros in a string, where 'active' has the names of the
+    macros that are being replaced."""
     # Replace the values
     def _substitute(m):
         # Get the string for the match
@@ -507,15 +513,19 @@ def replace_macros(s, *dicts):
 
         # See if the first piece corresponds to an entry in kwargs
         obj = None
+        name = None
         while pieces:
             piece = pieces.pop(0)
 
             if obj is None and any(piece in d for d in dicts):
                 for d in dicts:
                     if piece in d:
+                        name = piece
                         obj = d[piece]
                         break
-            elif hasattr(obj, piece):
+            elif (not isinstance(obj, (str, int, float)) and
+                  hasattr(obj, piece)):
+                # Only objects (ex: labels) have attributes to replace
                 obj = getattr(obj, piece)
             else:
                 # Match not found. Re-add piece to the pieces list
@@ -527,15 +537,13 @@ def replace_macros(s, *dicts):
             # no match found. Return the match
             return m.group()
         else:
-            # match(es) found, replace with the string
-            return str(obj) + ''.join('.' + piece for piece in pieces)
+            # Stop replacing macros that are defined in terms of themselves
+            if len(active) > len(set(active)) and name in active:
+                return m.group()
 
-    # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
-    s, num_subs = _re_macro.subn(_substitute, s)
-    last_num_subs = 0
-    while num_subs > 0 and num_subs > last_num_subs:
-        last_num_subs = num_subs
-        s, num_subs = _re_macro.subn(_substitute, s)
+            # match(es) found, replace with the string and replace the macros
+            # in the string
+            string = _replace_macros(str(obj), dicts, active + (name,))
+            return string + ''.join('.' + piece for piece in pieces)
 
-    return s
+    return _re_macro.sub(_substitute, s)
-- 
2.43.0


From ac2b987d7b251b40fad8fe26d99dfbd24837dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 12/57] fix: use the attributes of the rendered target and keep
 attribute values as written

---
 src/disseminate/attributes/attributes.py | 40 ++++++++++++++++-------
 src/disseminate/formats/xhtml.py         |  4 +++
 src/disseminate/tags/eqs.py              | 19 +++++------
 src/disseminate/tags/featurebox.py       |  9 +++---
 src/disseminate/tags/figs.py             | 10 +++---
 src/disseminate/tags/utils.py            | 41 +++++++++++++++++++++---
 6 files changed, 89 insertions(+), 34 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..f2beb20 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -110,6 +110,23 @@ re_attrs = regex.compile(r'((?P<key>[\w\.]+)'
                          r'|[^\s,\[\]]+|))')
 
 
+def strip_quotes(s):
+    """Strip one pair of matching quotes that surround a string.
+
+    Examples
+    --------
+    >>> strip_quotes('"test"')
+    'test'
+    >>> strip_quotes("'test'")
+    'test'
+    >>> strip_quotes('"a \'test\'"')
+    "a 'test'"
+    """
+    if len(s) > 1 and s[0] == s[-1] and s[0] in ('"', "'"):
+        return s[1:-1]
+    return s
+
+
 class Attributes(dict):
     """The attributes class is an ordered dict to manage and validate attribute
     entries.
@@ -175,10 +192,10 @@ class Attributes(dict):
             d = m.groupdict()
             if d.get('key', None) and d.get('value', None):
                 # Put the key-value pair in the attributes dict
-                attrs.append((d['key'], d['value'].strip('"').strip("'")))
+                attrs.append((d['key'], strip_quotes(d['value'])))
 
             elif d.get('position', None):
-                value = d['position'].strip("'").strip('"')
+                value = strip_quotes(d['position'])
 
                 # Strip target-specific suffixes to get the accurate
                 # PostionalValue subclass. (ex: '3.1416.tex' turns into
@@ -256,18 +273,19 @@ class Attributes(dict):
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
             if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
-            else:
-                # Otherwise remove entries that have target-specific
+                # Find the entries for the target, if specified
                 target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+                                if k.endswith(sep + target)]
+            else:
+                target_items = []
+
+            # Otherwise use the entries that are not target-specific
+            target_items += [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
 
             # Return the first item found
             if target_items:
                 return target_items[0]
-            elif items:
-                return items[0]
 
         # Give up
         return default
@@ -322,9 +340,9 @@ class Attributes(dict):
                             sep=sep)
         if isinstance(rv, tuple) and len(rv) == 2:
             key, value = rv
-            rv = key if ispositional(attr) else value
 
-            return strip_attr(rv, sep=sep) if isinstance(rv, str) else rv
+            # Only keys have target-specific terminators; values don't.
+            return strip_attr(key, sep=sep) if ispositional(attr) else value
         else:
             return rv
 
diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..03d6a59 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -69,6 +69,10 @@ def xhtml_tag(name, attributes=None, formatted_content=None, level=1,
     >>> xhtml_tag('img', attributes="src='test.svg'", method='xml')
     Markup('<img src="test.svg"/>\n')
     """
+    # Use the attributes for the target of the rendering method
+    if target is None:
+        target = '.html' if method == 'html' else '.xhtml'
+
     method = 'xml' if method == 'xhtml' else method
 
     # See if the tag is permitted
diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 9e47d7d..c717a83 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -2,7 +2,7 @@
 Tags to render equations
 """
 from .img import Img
-from .utils import content_to_str
+from .utils import append_class, content_to_str
 from ..formats import tex_cmd, tex_env
 
 
@@ -60,7 +60,7 @@ class Eq(Img):
     @property
     def block_equation(self):
         return (self._block_equation or
-                'env' in self.attributes or
+                self.attributes.get('env', target='.tex') is not None or
                 self.paragraph_role == 'block')
 
     @block_equation.setter
@@ -77,11 +77,13 @@ class Eq(Img):
         env = attributes.get('env', target='.tex') or self.default_block_env
 
         # Add bold and color if specified
-        if 'color' in attributes:
+        color = attributes.get('color', target='.tex')
+        if color is not None:
             content = tex_cmd(cmd='textcolor',
-                              attributes=attributes['color'],
+                              attributes=color,
                               formatted_content=content)
-        if 'bold' in attributes or self.name == 'termb':
+        if (attributes.get('bold', target='.tex') is not None or
+           self.name == 'termb'):
             content = tex_cmd(cmd='boldsymbol', formatted_content=content)
 
         # Remove extra space around the content
@@ -110,10 +112,9 @@ class Eq(Img):
         attrs['crop'] = (100, 100, 0, 0)
         attrs['offset'] = (0, 0, -1, 0)
 
-        if self.block_equation:
-            attrs['class'] = 'eq blockeq'
-        else:
-            attrs['class'] = 'eq'
+        target = '.' + method if not method.startswith('.') else method
+        html_class = 'eq blockeq' if self.block_equation else 'eq'
+        append_class(attrs, html_class, target=target)
 
         if context is None and method not in self._target_context:
             # Create a special context for this tag specifically. This tag
diff --git a/src/disseminate/tags/featurebox.py b/src/disseminate/tags/featurebox.py
index 95ea58b..81a9117 100644
--- a/src/disseminate/tags/featurebox.py
+++ b/src/disseminate/tags/featurebox.py
@@ -2,6 +2,7 @@
 A tag for a feature box used in some textbooks (like examples)
 """
 from .tag import Tag
+from .utils import append_class
 
 
 class FeatureBox(Tag):
@@ -27,14 +28,14 @@ class FeatureBox(Tag):
     def __init__(self, name, *args, **kwargs):
         super().__init__(name='featurebox', *args, **kwargs)
 
-    def html_fmt(self, attributes=None, **kwargs):
+    def html_fmt(self, attributes=None, method='html', **kwargs):
         attributes = (self.attributes.copy() if attributes is None else
                       attributes)
 
         # Add the html attribute
-        attributes['class'] = (attributes['class'] + " " + self.html_classes
-                               if 'class' in attributes else self.html_classes)
-        return super().html_fmt(attributes=attributes, **kwargs)
+        target = '.' + method if not method.startswith('.') else method
+        attributes = append_class(attributes, self.html_classes, target=target)
+        return super().html_fmt(attributes=attributes, method=method, **kwargs)
 
 
 class ExampleBox(FeatureBox):
diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..0ebc980 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -3,7 +3,7 @@ Tags for figure environments.
 """
 from .tag import Tag
 from .caption import Caption
-from .utils import xhtml_percentwidth, tex_percentwidth
+from .utils import append_class, xhtml_percentwidth, tex_percentwidth
 from ..utils.string import strip_multi_newlines
 from .. import settings
 
@@ -47,13 +47,11 @@ class BaseFigure(Tag):
 
     def html_fmt(self, attributes=None, method='html', **kwargs):
         attrs = attributes or self.attributes.copy()
+        target = '.' + method if not method.startswith('.') else method
 
         # Set the html class
         if self.html_class is not None:
-            if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
-            else:
-                attrs['class'] = self.html_class
+            attrs = append_class(attrs, self.html_class, target=target)
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
 
 
@@ -113,6 +111,6 @@ class Panel(Tag):
         target = '.' + method if not method.startswith('.') else method
 
         # Format the html classes
-        attrs['class'] = 'panel'
+        attrs = append_class(attrs, 'panel', target=target)
         attrs = xhtml_percentwidth(attributes=attrs, target=target)
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..31f6455 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -247,6 +247,9 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
             if range_min < percent_width <= range_max:
                 fit_percent_width = test_percent_width
 
+    # The target-specific entry is replaced by the formatted width
+    attributes.pop('width' + target, None)
+
     # Set the width value in the attributes dict
     if isinstance(fit_percent_width, int):
         str = "{}\\textwidth".format(fit_percent_width / 100.)
@@ -264,6 +267,39 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
     return attributes
 
 
+def append_class(attributes, html_class, target='.html'):
+    """Append a class to the 'class' entry in the attributes.
+
+    Parameters
+    ----------
+    attributes : :obj:`.attributes.Attributes`
+        The attributes dict
+    html_class : str
+        The (x)html class to append.
+    target : Optional[str]
+        The target format to format the attribute dict for.
+
+    Returns
+    -------
+    attributes: :obj:`.attributes.Attributes`
+        The same attributes dict with the 'class' entry for the target set.
+
+    Examples
+    --------
+    >>> append_class(Attributes('class=one'), 'two')
+    Attributes{'class': 'one two'}
+    >>> append_class(Attributes('class=one class.html=two'), 'three')
+    Attributes{'class': 'two three'}
+    >>> append_class(Attributes(), 'one')
+    Attributes{'class': 'one'}
+    """
+    current = attributes.get('class', target=target)
+    attributes.pop('class' + target, None)
+    attributes['class'] = (current + ' ' + html_class if current else
+                           html_class)
+    return attributes
+
+
 def xhtml_percentwidth(attributes, target='.html'):
     """Generates an (x)html class name based on the 'width' entry in the
     attributes.
@@ -312,9 +348,6 @@ def xhtml_percentwidth(attributes, target='.html'):
 
     for html_class, (range_min, range_max) in windows.items():
         if range_min < percent_width <= range_max:
-            cls_str = (attributes['class'] + ' ' + html_class
-                       if 'class' in attributes else html_class)
-            attributes['class'] = cls_str
-            return attributes
+            return append_class(attributes, html_class, target=target)
 
     return attributes
-- 
2.43.0


From e373080878fddc6e877e1b4130824fd01ae58275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 13/57] fix: show the contents of headings without labels in
 tex

---
 src/disseminate/tags/headings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index c78fb95..9baf2f7 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,10 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            # Headings without a label simply show their contents
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From 17f96891656475110de57acc7aa29a0eeeaeb8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 14/57] fix: read empty headers, escaped colons and continued
 lines of headers as written

---
 src/disseminate/context/utils.py |  9 +++++----
 src/disseminate/utils/string.py  | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/context/utils.py b/src/disseminate/context/utils.py
index 72d2033..3be6f11 100644
--- a/src/disseminate/context/utils.py
+++ b/src/disseminate/context/utils.py
@@ -4,9 +4,10 @@ import regex
 from ..utils.string import str_to_dict
 
 
-re_header_block = regex.compile(r'^[\s\n]*(-{3,})\s*\n'
-                                r'(?P<header>.+?)'
-                                r'(\n\s*\g<1>)\n?', regex.DOTALL)
+# The header is between lines with 3 or more '-' characters, and it may be empty
+re_header_block = regex.compile(r'^\s*-{3,}[^\S\n]*\n'
+                                r'((?P<header>.*?)\n)??'
+                                r'\s*?-{3,}[^\S\n]*(\n|\Z)', regex.DOTALL)
 
 
 def find_header_entries(context):
@@ -54,7 +55,7 @@ def load_from_string(string):
         rest = string[end:]
 
         # Get the header part of the string
-        string = m.groupdict()['header']
+        string = m.groupdict()['header'] or ''
 
     # Parse the string
     d = str_to_dict(string)
diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 128577f..05fdbe4 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -193,14 +193,24 @@ def strip_end_quotes(s):
     'This is my test string'
     >>> strip_end_quotes('"This is my test string "')
     'This is my test string '
+    >>> strip_end_quotes('"One" and "Two"')
+    '"One" and "Two"'
     """
     if '\n' in s:
         # Newlines, process each individually
         return '\n'.join(map(strip_end_quotes, s.splitlines()))
 
     for char in "\'\"":
-        if s.count(char) % 2 == 0:  # even number of quotes
+        count = s.count(char)
+        if count > 0 and count % 2 == 0:  # even number of quotes
             pieces = s.split(char)
+
+            # The quotes within the ends should open before they close.
+            # Otherwise the quotes at the ends are not a matched pair.
+            # ex: '"One" and "Two"'
+            if count > 2 and pieces[1] != '' and not pieces[1][-1].isspace():
+                continue
+
             if pieces[0].strip() == '' and pieces[-1].strip() == '':
                 return ''.join((pieces[0], char.join(pieces[1:-1]),
                                 pieces[-1]))
@@ -377,7 +387,8 @@ def str_to_dict(string, strip_quotes=True):
 
         # Workup the line. Strip leading spaces from the line.
         if current_spaces is not None:
-            line = line[current_spaces:]
+            spaces = len(line) - len(line.lstrip())
+            line = line[min(current_spaces, spaces):]
 
         # Replace escaped colons ('\:') with colons (':')
         line = line.replace("\\:", ":")
@@ -388,8 +399,8 @@ def str_to_dict(string, strip_quotes=True):
             # as the last entry.
             group_dict = m.groupdict()
             space_level = len(group_dict['space_level'])
-            key = group_dict['key'].strip()
-            value = group_dict['value']
+            key = group_dict['key'].strip().replace("\\:", ":")
+            value = group_dict['value'].replace("\\:", ":")
 
             if current_spaces is not None and space_level > current_spaces:
                 # Not a new entry. Just add the line to the last entry.
-- 
2.43.0


From 87b9b3fc90699f788b828ef1974e110cb4b97404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 15/57] fix: do not place lists, tables of contents and title
 pages in paragraphs

---
 src/disseminate/tags/list.py     | 1 +
 src/disseminate/tags/preamble.py | 1 +
 src/disseminate/tags/toc.py      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..ab71d98 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -215,6 +215,7 @@ class List(Tag):
     """A tag for lists"""
 
     active = True
+    include_paragraphs = False
     html_name = "ul"
     tex_env = "easylist"
     list_style = 'itemize'
diff --git a/src/disseminate/tags/preamble.py b/src/disseminate/tags/preamble.py
index 1de8541..ea67736 100644
--- a/src/disseminate/tags/preamble.py
+++ b/src/disseminate/tags/preamble.py
@@ -67,6 +67,7 @@ class Titlepage(Tag):
 
     authors_tag = None
     active = True
+    include_paragraphs = False
 
     def __init__(self, name, content, attributes, context):
         super(Titlepage, self).__init__(name, content, attributes, context)
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index c1aa10f..5ab6adb 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -82,6 +82,7 @@ class Toc(Tag):
     """
 
     active = True
+    include_paragraphs = False
     toc_kind = None
     toc_elements = None
     header_tag = None
-- 
2.43.0


From 91b13fba23bf3c500125b57132d0f4f6d404155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 16/57] fix: do not place blocks of code in html paragraph
 elements

---
 src/disseminate/tags/code.py |  6 ++++++
 src/disseminate/tags/text.py | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index ec60a93..087a597 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -23,6 +23,12 @@ class Code(Tag):
 
     html_name = 'code'
 
+    @property
+    def html_block(self):
+        """True if the html element is a block ('div'), which cannot be placed
+        in a paragraph ('p') element."""
+        return self.paragraph_role == 'block'
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index f377b05..e39217b 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -58,6 +58,19 @@ class P(Tag):
     active = True
     include_paragraphs = False
 
+    def html_fmt(self, content=None, **kwargs):
+        # Block elements, like a code block, are not allowed in 'p' elements
+        items = (self.content if isinstance(self.content, list) else
+                 [self.content])
+        items = [i for i in items if not isinstance(i, str) or i.strip()]
+
+        if (content is None and len(items) == 1 and
+           getattr(items[0], 'html_block', False)):
+            format_func = kwargs.get('format_func', 'html_fmt')
+            return getattr(items[0], format_func)(**kwargs)
+
+        return super(P, self).html_fmt(content=content, **kwargs)
+
     def tex_fmt(self, **kwargs):
         tex = super(P, self).tex_fmt(**kwargs)
 
-- 
2.43.0


From 1b526493a1bf607285d8151568aaed37f3e4e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 17/57] fix: keep the levels and the contents of list items

---
 src/disseminate/formats/xhtml.py | 12 +++--
 src/disseminate/tags/list.py     | 78 ++++++++++++++++++++++++++++++--
 2 files changed, 80 insertions(+), 10 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index 03d6a59..2a818a1 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -270,7 +270,7 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
     method = 'xml' if method == 'xhtml' else method
 
     current_elements = []
-    listlevel = elements[0][0] if elements else 0
+    listlevel = min(e[0] for e in elements) if elements else 0
 
     _count = 0
 
@@ -287,12 +287,14 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
     for is_same_list, group in groupby(elements, counter):
         group = list(group)
 
-        # Add the parent list item
-        current_elements.append(group[0][1])
+        # Add the parent list item. The items before the first item at this
+        # list's level are sub list items without a parent list item.
+        if group[0][0] == listlevel:
+            current_elements.append(group.pop(0)[1])
 
         # If there are sub list items, add these as well
-        if group[1:]:
-            lst = xhtml_list(*group[1:], listtype=listtype, level=level + 1,
+        if group:
+            lst = xhtml_list(*group, listtype=listtype, level=level + 1,
                              target=target, method=method,
                              pretty_print=pretty_print, inner=True)
             current_elements.append(lst)
diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index ab71d98..887b266 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -12,12 +12,77 @@ from .. import settings
 
 
 # Find lists with entries labeled with a '-' or '*' bullet for each list item
-re_list = regex.compile(r'^\s*[\*\-]', regex.MULTILINE)
+re_list = regex.compile(r'^[^\S\n]*[\*\-]', regex.MULTILINE)
 
 # Regex to clean list items with multi-line line-items
 re_multiline_items = regex.compile(r'\s*\n+\s+')
 
 
+# Regex to find braces, which mark the contents of tags in a list
+re_braces = regex.compile(r'[{}]')
+
+
+def split_braces(s):
+    r"""Split a string into the parts outside of braces and the parts with
+    (matched) braces, which are the contents of tags.
+
+    Parameters
+    ----------
+    s : str
+        The string to split.
+
+    Returns
+    -------
+    parts : List[Tuple[bool, str]]
+        The parts of the string. The first item is True if the part is within
+        braces.
+
+    Examples
+    --------
+    >>> split_braces('a @b{c}d')
+    [(False, 'a @b'), (True, '{c}'), (False, 'd')]
+    """
+    parts = []
+    start, level = 0, 0
+    for m in re_braces.finditer(s):
+        if m.group() == '{':
+            if level == 0:
+                parts.append((False, s[start:m.start()]))
+                start = m.start()
+            level += 1
+        elif level > 0:
+            level -= 1
+            if level == 0:
+                parts.append((True, s[start:m.end()]))
+                start = m.end()
+    parts.append((False, s[start:]))
+    return [(inner, part) for inner, part in parts if part]
+
+
+def find_list_items(s):
+    """Find the matches for the start of list items that are not within the
+    contents of tags.
+
+    Parameters
+    ----------
+    s : str
+        The string to search.
+
+    Returns
+    -------
+    matches : List[regex.Match]
+        The matches
+    """
+    inner = []
+    pos = 0
+    for is_inner, part in split_braces(s):
+        if is_inner:
+            inner.append((pos, pos + len(part)))
+        pos += len(part)
+    return [m for m in re_list.finditer(s)
+            if not any(start < m.end() <= end for start, end in inner)]
+
+
 def parse_string_list(s):
     r"""Parse a string with lists.
 
@@ -41,7 +106,7 @@ def parse_string_list(s):
     current_pos = 0
     list_level = 1
 
-    for match in re_list.finditer(s):
+    for match in find_list_items(s):
         # Skip the first entry, since this is the string contents before
         # the start of the list
         if current_match is None:
@@ -98,9 +163,12 @@ def clean_string_list(parsed_list):
     >>> clean_string_list(l)
     [(0, 'This is my first item.'), (2, 'This is my first subitem')]
     """
-    return [(level, re_multiline_items.sub(" ", s))
-            if isinstance(s, str) else
-            (level, s)
+    def clean(s):
+        # The contents of tags are not changed
+        return "".join(part if inner else re_multiline_items.sub(" ", part)
+                       for inner, part in split_braces(s))
+
+    return [(level, clean(s)) if isinstance(s, str) else (level, s)
             for level, s in parsed_list]
 
 
-- 
2.43.0


From b6c3d8235866423b9d8b86de35bd5dfe339b3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 18/57] fix: build again when the contents of input files are
 exchanged

---
 src/disseminate/builders/deciders/md5decider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..f0115f0 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -44,8 +44,11 @@ class Md5Decision(Decision):
     @staticmethod
     def calculate_hash(inputs, output):
         """Calculate the md5 hash for the inputs, output and args."""
+        # The inputs are sorted by their name or value, rather than by the hash
+        # of their contents, so that the hash changes when the contents of
+        # two input files are exchanged
         sorted_inputs = sorted(inputs, key=str)
-        hash_input = hash_items(*sorted_inputs)
+        hash_input = hash_items(*sorted_inputs, sort=False)
         hash_output = hash_items(output)
 
         return (hash_input, hash_output)
-- 
2.43.0


From 45aa5e73e22d56fd7fb49bb9eebde243c40fe51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 19/57] fix: include line breaks in the hash of pdf files

---
 src/disseminate/builders/deciders/utils_hash.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disseminate/builders/deciders/utils_hash.py b/src/disseminate/builders/deciders/utils_hash.py
index c3e35e8..de1978f 100644
--- a/src/disseminate/builders/deciders/utils_hash.py
+++ b/src/disseminate/builders/deciders/utils_hash.py
@@ -137,5 +137,6 @@ def hash_pdf(filepath, chunk_size, hashfunc,
             if any(line.startswith(starter) for starter in startswith):
                 continue
             hashobj.update(line)
+            hashobj.update(b'\n')
 
     return hashobj.digest()
-- 
2.43.0


From cc79b3a9b9f3f7961ee49bf4fb4fc08f387b435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 20/57] fix: run a builder again when its inputs change after a
 successful run

---
 src/disseminate/builders/builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..dbb24ed 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -235,6 +235,10 @@ class Builder(metaclass=ABCMeta):
         # If a build is not needed or the process is done, then the build is
         # done
         if not self.build_needed():
+            if self.future is not None and self.future.done():
+                # The last run is completed. If the inputs or output change
+                # later, a new run is needed.
+                self.future = None
             return "done"
 
         # If a process is open (self.open is not None), then a build is
@@ -266,6 +270,7 @@ class Builder(metaclass=ABCMeta):
                 # It was a successful run and the generated file exists
                 else:
                     self.build_needed(reset=True)
+                    self.future = None
                     return "done"
 
             # non-zero exit code. Unsuccessful. :(
-- 
2.43.0


From 758c76957100bd0bde31b5872f6833b34c7c2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 21/57] fix: do not run two commands for the same output file
 at the same time

---
 src/disseminate/builders/builder.py | 47 +++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index dbb24ed..68a7419 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -3,6 +3,7 @@ Objects to manage builds
 """
 import logging
 import pathlib
+import weakref
 from abc import ABCMeta
 from string import Formatter
 from distutils.spawn import find_executable
@@ -129,6 +130,7 @@ class Builder(metaclass=ABCMeta):
 
     _active = dict()
     _available_builders = dict()
+    _runs = dict()  # The builders and futures of runs for each outfilepath
     _parameters = None
     _missing_parameters = None
     _outfilepath = None
@@ -238,7 +240,7 @@ class Builder(metaclass=ABCMeta):
             if self.future is not None and self.future.done():
                 # The last run is completed. If the inputs or output change
                 # later, a new run is needed.
-                self.future = None
+                self.clear_run()
             return "done"
 
         # If a process is open (self.open is not None), then a build is
@@ -270,14 +272,52 @@ class Builder(metaclass=ABCMeta):
                 # It was a successful run and the generated file exists
                 else:
                     self.build_needed(reset=True)
-                    self.future = None
+                    self.clear_run()
                     return "done"
 
             # non-zero exit code. Unsuccessful. :(
             self.runtime_error(future=self.future)
 
+        elif self.other_run():
+            # The outfilepath is being created by another builder
+            return "building"
+
         else:
-            return "ready"
+            return "ready" if self.build_needed() else "done"
+
+    def clear_run(self):
+        """Clear the future for a completed run."""
+        run = Builder._runs.get(str(self.outfilepath), None)
+        if run is not None and run[1] is self.future:
+            del Builder._runs[str(self.outfilepath)]
+        self.future = None
+
+    def other_run(self):
+        """True if another builder is running to create this builder's
+        outfilepath.
+
+        When the run of the other builder is completed, the other builder's
+        decision is updated, so that this builder doesn't have to create the
+        same file again.
+        """
+        run = Builder._runs.get(str(self.outfilepath), None)
+        if run is None:
+            return False
+
+        other, future = run[0](), run[1]
+        if other is self:
+            return False
+        if not future.done():
+            return True
+
+        del Builder._runs[str(self.outfilepath)]
+        if other is not None and other.future is future:
+            try:
+                other.status
+            except Exception:
+                # Errors are reported by the status of the other builder
+                pass
+        return False
 
     def build_needed(self, reset=False):
         """Decide whether a build is needed"""
@@ -453,6 +493,7 @@ class Builder(metaclass=ABCMeta):
             # add the process to the executor pool
             future = executor.submit(run, args=args, timeout=self.timeout)
             self.future = future
+            Builder._runs[str(self.outfilepath)] = (weakref.ref(self), future)
 
     def build(self, complete=False):
         """Run the build.
-- 
2.43.0


From 0234abe8ad615634e2b76ccacc5dde28c5d418c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 22/57] fix: reference a document that isn't rendered in the
 html target in a span

---
 src/disseminate/tags/ref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 180bd13..79599f9 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -371,8 +371,9 @@ class Ref(Tag):
             if url is not None:
                 attrs['href'] = url
 
-            # wrap content in 'a' tag
-            return xhtml_tag('a', attributes=attrs, formatted_content=content,
+            # wrap content in 'a' tag, or a 'span' tag if there isn't a link
+            name = 'a' if url is not None else 'span'
+            return xhtml_tag(name, attributes=attrs, formatted_content=content,
                              level=level, method=method,
                              pretty_print=False)  # no line breaks
         else:
-- 
2.43.0


From dc7fe026923e6864d25f3adde6027f854ec0454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:53 +0000
Subject: [PATCH 23/57] fix: render targets again when other documents,
 headers, embedded files or dependencies change

---
 src/disseminate/builders/builder.py           |  6 +++
 src/disseminate/builders/deciders/decider.py  | 17 ++++++++
 .../builders/deciders/md5decider.py           | 18 ++++++++
 src/disseminate/builders/jinja_render.py      | 37 +++++++++++++++-
 src/disseminate/builders/pdflatex.py          |  9 ++++
 .../builders/target_builders/pdf_builder.py   |  1 +
 .../target_builders/target_builder.py         | 32 ++++++++++++++
 src/disseminate/builders/utils.py             | 42 +++++++++++++++++++
 src/disseminate/document/document.py          | 32 ++++++++++++++
 src/disseminate/document/receivers/load.py    |  3 ++
 src/disseminate/tags/code.py                  |  1 +
 src/disseminate/tags/data.py                  | 10 ++++-
 src/disseminate/tags/img.py                   | 27 +++++++++---
 src/disseminate/tags/tag.py                   |  3 ++
 14 files changed, 231 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 68a7419..935f15b 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -327,10 +327,16 @@ class Builder(metaclass=ABCMeta):
         inputs = list(self.parameters)
         if self.action:
             inputs.append(self.action)
+        inputs += [i for i in self.dependencies() if i not in inputs]
         return self.decision.build_needed(inputs=inputs,
                                           output=self.outfilepath,
                                           reset=reset)
 
+    def dependencies(self):
+        """The strings and files that determine the result of the build, but
+        that are not parameters. A new build is needed when these change."""
+        return []
+
     @property
     def parameters(self):
         """The list of input parameters, including filepaths, needed for the
diff --git a/src/disseminate/builders/deciders/decider.py b/src/disseminate/builders/deciders/decider.py
index 7df6ab6..98565d0 100644
--- a/src/disseminate/builders/deciders/decider.py
+++ b/src/disseminate/builders/deciders/decider.py
@@ -70,3 +70,20 @@ class Decider(object):
     def decision(self):
         """Return the Decision class associated with this decider."""
         return self.decision_cls(parent_decider=self)
+
+    def store_files(self, name, filepaths):
+        """Store the files created for a completed build.
+
+        Parameters
+        ----------
+        name : str
+            The unique name for the build.
+        filepaths : Union[List[:obj:`pathlib.Path`], None]
+            The files created, or None to remove the stored files.
+        """
+        pass
+
+    def files_changed(self, name):
+        """True if the files stored for a build are missing or changed since
+        the build was completed, or the build wasn't completed."""
+        return False
diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index f0115f0..221022c 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -1,6 +1,8 @@
 """
 A decider that uses MD5 hashes.
 """
+import pathlib
+
 import diskcache
 
 from .decider import Decider, Decision
@@ -71,6 +73,22 @@ class Md5Decider(Decider):
         if self._db is not None:
             self.db.close()
 
+    def store_files(self, name, filepaths):
+        key = 'files ' + name
+        if filepaths is None:
+            self.db.pop(key)
+        else:
+            self.db[key] = [(str(filepath), hash_items(filepath))
+                            for filepath in filepaths]
+
+    def files_changed(self, name):
+        files = self.db.get('files ' + name, None)
+        if files is None:
+            return True
+        files = [(pathlib.Path(filename), hash) for filename, hash in files]
+        return any(not filepath.is_file() or hash_items(filepath) != hash
+                   for filepath, hash in files)
+
     @property
     def db_path(self):
         """The path for the database file"""
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 996ec2b..ec506f0 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -9,7 +9,8 @@ import jinja2.meta
 
 from .builder import Builder
 from .exceptions import BuildError
-from .utils import generate_mock_parameters, generate_outfilepath
+from .utils import (generate_mock_parameters, generate_outfilepath,
+                    document_hashes, document_files)
 from ..paths import SourcePath
 from ..paths.utils import find_file
 from ..utils.list import uniq
@@ -101,6 +102,15 @@ class JinjaRender(Builder):
 
     render_ext = None
 
+    #: If True, the rendered file depends on the documents of the project
+    use_documents = False
+
+    #: If True, check the files created for the dependencies of the last render
+    check_files = False
+
+    #: True if the file was rendered by this builder
+    rendered = False
+
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
 
@@ -111,6 +121,27 @@ class JinjaRender(Builder):
         self.render_ext = render_ext or self.outfilepath.suffix
         self.context = context
 
+    def dependencies(self):
+        if not self.use_documents:
+            return []
+        # The rendered document depends on the sources of all documents in the
+        # project (for the labels, numbers and titles of other documents, and
+        # inherited values) and on the files used by the document's tags.
+        return document_hashes(self.context) + document_files(self.context)
+
+    def build_needed(self, reset=False):
+        build_needed = super().build_needed(reset=reset)
+
+        if reset:
+            self.check_files = False
+        elif not build_needed and self.check_files:
+            # Evaluate whether the files, created for the dependencies that
+            # were found when the file was last rendered, have changed.
+            decider = self.env.decider
+            build_needed = decider.files_changed(name=str(self.outfilepath))
+            self.check_files = build_needed
+        return build_needed
+
     def jinja_environment(self):
         """The jinja environment."""
         if getattr(self.env, '_jinja_environment', None) is None:
@@ -254,6 +285,10 @@ class JinjaRender(Builder):
                                               target=self.render_ext,
                                               outfilepath=outfilepath)
 
+        # The dependencies found in this render haven't been created yet
+        self.env.decider.store_files(name=str(outfilepath), filepaths=None)
+        self.rendered = True
+
         outfilepath.write_text(rendered_string)
         self.build_needed(reset=True)
         return self.status
diff --git a/src/disseminate/builders/pdflatex.py b/src/disseminate/builders/pdflatex.py
index df3885c..96eedbf 100644
--- a/src/disseminate/builders/pdflatex.py
+++ b/src/disseminate/builders/pdflatex.py
@@ -2,6 +2,8 @@
 A builder to convert from TEX to PDF
 """
 from .builder import Builder
+from .utils import document_files
+from ..utils.classes import weakattr
 
 
 class Pdflatex(Builder):
@@ -21,6 +23,13 @@ class Pdflatex(Builder):
     infilepath_ext = '.tex'
     outfilepath_ext = '.pdf'
 
+    #: The document context, if the tex file was rendered from a document
+    context = weakattr()
+
+    def dependencies(self):
+        # The images in the document are included in the pdf
+        return document_files(self.context)
+
     @property
     def cache_path(self):
         return self.outfilepath.parent
diff --git a/src/disseminate/builders/target_builders/pdf_builder.py b/src/disseminate/builders/target_builders/pdf_builder.py
index dd9b280..33718d8 100644
--- a/src/disseminate/builders/target_builders/pdf_builder.py
+++ b/src/disseminate/builders/target_builders/pdf_builder.py
@@ -56,6 +56,7 @@ class PdfBuilder(TargetBuilder):
 
         # Setup the paths
         tex2pdf.parameters = [tex_builder.outfilepath]
+        tex2pdf.context = context
 
         copy_builder.parameters = [tex2pdf.outfilepath]
         copy_builder.outfilepath = self.outfilepath
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 1b988cc..01edda0 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -7,6 +7,7 @@ from ..jinja_render import JinjaRender
 from ..composite_builders import SequentialBuilder, ParallelBuilder
 from ..utils import generate_outfilepath
 from ...utils.classes import weakattr
+from ...utils.list import uniq
 
 
 class TargetBuilder(SequentialBuilder):
@@ -114,7 +115,10 @@ class TargetBuilder(SequentialBuilder):
 
         # Add a parallel builder for dependencies
         if self.add_parallel_builder:
+            # The builders for dependencies are kept when these are done, since
+            # the dependencies may change later.
             parallel_builder = ParallelBuilder(env=env, **kwargs)
+            parallel_builder.clear_done = False
             subbuilders.append(parallel_builder)
             self._parallel_builder = parallel_builder
 
@@ -126,6 +130,12 @@ class TargetBuilder(SequentialBuilder):
             # Add ref label dependencies
             render_builder.parameters_from_signals = 'ref_label_dependencies'
 
+            # The rendered target depends on the documents of the project, and
+            # it is rendered again if the files created for the dependencies
+            # found in the last render aren't available
+            render_builder.use_documents = True
+            render_builder.check_files = True
+
             subbuilders.append(render_builder)
             self._render_builder = render_builder
 
@@ -161,6 +171,28 @@ class TargetBuilder(SequentialBuilder):
                                         **kwargs)
         return builder
 
+    @property
+    def status(self):
+        status = super().status
+        if status == 'done' and self._parallel_builder is not None:
+            self.store_files()
+        return status
+
+    def store_files(self):
+        """Store the files created for the dependencies of a rendered target.
+
+        The dependencies are found when the target is rendered. If the target
+        doesn't have to be rendered again, the stored files are used to
+        evaluate whether the dependencies should be created again.
+        """
+        render_builder = self._render_builder
+        if getattr(render_builder, 'rendered', False):
+            filepaths = [sb.outfilepath
+                         for sb in self._parallel_builder.subbuilders]
+            self.env.decider.store_files(name=str(self.outfilepath),
+                                         filepaths=uniq(filepaths))
+            render_builder.rendered = False
+
     def build(self, complete=False):
         # Reload the document
         context = self.context
diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index 90e6629..840cafc 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -173,3 +173,45 @@ def generate_outfilepath(env, parameters, target=None, append=None, ext=None,
     return (TargetPath(target_root=target_root, target=target, subpath=subpath)
             if target else
             TargetPath(target_root=target_root, subpath=subpath))
+
+
+def document_hashes(context):
+    """The hashes for the sources of all documents in a project.
+
+    Parameters
+    ----------
+    context : :obj:`.document.DocumentContext`
+        The context for a document in the project.
+
+    Returns
+    -------
+    hashes : List[str]
+        The strings that identify the documents and their sources.
+    """
+    root_document = (context or dict()).get('root_document', None)
+    if callable(root_document):  # de-reference a weakref
+        root_document = root_document()
+    if root_document is None:
+        return []
+    docs = root_document.documents_list(recursive=True)
+    return ["document '{}': {}".format(doc.src_filepath.subpath,
+                                       doc.source_hash) for doc in docs]
+
+
+def document_files(context):
+    """The (existing) files used by the tags of a document.
+
+    Parameters
+    ----------
+    context : :obj:`.document.DocumentContext`
+        The context for the document.
+
+    Returns
+    -------
+    filepaths : List[:obj:`pathlib.Path`]
+        The paths for the files.
+    """
+    document = getattr(context, 'document', None)
+    if document is None:
+        return []
+    return [filepath for filepath in document.files if filepath.is_file()]
diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index b710096..bdca7f4 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -60,6 +60,13 @@ class Document(object):
     #: The path of a temporary directory created for this document, if needed.
     _temp_dir = None
 
+    #: The hash for the text of the source file that was loaded.
+    source_hash = None
+
+    #: The files used by the tags in this document and their modification
+    #: times when these were loaded.
+    files = None
+
     #: A flag to determine whether the document was successfully loaded
     _succesfully_loaded = False
 
@@ -69,6 +76,7 @@ class Document(object):
 
         # Populate attributes
         self.subdocuments = OrderedDict()
+        self.files = OrderedDict()
         self._templates = dict()  # FIXME: Remove
 
         # Process the paths
@@ -346,8 +354,31 @@ class Document(object):
                           "than this document.".format(self))
             return True
 
+        # 5. The files used by the tags in this document have changed
+        if any(self._file_mtime(filepath) != mtime
+               for filepath, mtime in self.files.items()):
+            logging.debug("Load required for {}: The files used in this "
+                          "document have changed.".format(self))
+            return True
+
         return False
 
+    @staticmethod
+    def _file_mtime(filepath):
+        """The modification time of the file, or None if it isn't available.
+        """
+        return filepath.stat().st_mtime if filepath.is_file() else None
+
+    def _load_files(self):
+        """Find the files used by the tags in this document."""
+        self.files = OrderedDict()
+        for value in list(self.context.values()):
+            if not hasattr(value, 'flatten'):
+                continue
+            for tag in value.flatten():
+                for filepath in tag.infilepaths:
+                    self.files[filepath] = self._file_mtime(filepath)
+
     def load(self, reload=False, level=1):
         """Load or reload the document into the context.
 
@@ -390,6 +421,7 @@ class Document(object):
 
             # Emit the load signal
             signals.document_onload.emit(document=self, context=self.context)
+            self._load_files()
 
             # The document has been loaded
             self._succesfully_loaded = True
diff --git a/src/disseminate/document/receivers/load.py b/src/disseminate/document/receivers/load.py
index f4a981b..8f22541 100644
--- a/src/disseminate/document/receivers/load.py
+++ b/src/disseminate/document/receivers/load.py
@@ -1,6 +1,8 @@
 """
 A receiver to load the document's string in the document context
 """
+import hashlib
+
 from ..signals import document_onload
 from ... import settings
 
@@ -10,6 +12,7 @@ def load_document(document, **kwargs):
     """Load the document text file into the document context."""
     # Load the string from the src_filepath,
     string = document.src_filepath.read_text()
+    document.source_hash = hashlib.md5(string.encode()).hexdigest()
 
     # Place the text of the string in the 'body' attribute of the
     # context (see settings.body_attr)
diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index 087a597..8bbcc9e 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -38,6 +38,7 @@ class Code(Tag):
         if len(files) > 0:
             new_content = "\n".join([file.read_text() for file in files])
             self.content = new_content
+            self.infilepaths = files
 
     @property
     def lexer(self):
diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 60b3da5..97444cb 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -3,12 +3,13 @@ Tags for data sources
 """
 import abc
 import csv
+import pathlib
 from collections import OrderedDict
 
 from .tag import Tag
 from .utils import format_content
 from ..utils.list import transpose
-from ..paths.utils import load_io_stream
+from ..paths.utils import load_io_stream, find_files
 from ..formats.xhtml import xhtml_tag
 from ..formats.tex import tex_cmd
 
@@ -146,6 +147,13 @@ class DelimData(Data):
         if self.data is None:
             delimiter = delimiter if delimiter is not None else self.delimiter
 
+            # Keep track of the file, if one is loaded
+            if isinstance(filepath_or_buffer, pathlib.Path):
+                self.infilepaths = [filepath_or_buffer]
+            elif isinstance(filepath_or_buffer, str):
+                self.infilepaths = find_files(filepath_or_buffer,
+                                              context=self.context)[:1]
+
             # Load a file or string stream from the filepath_or_buffer
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 2a14a61..01a65ff 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -2,6 +2,7 @@
 Image tags
 """
 import pathlib
+import weakref
 
 from .tag import Tag, TagError
 from .utils import xhtml_percentwidth, tex_percentwidth
@@ -52,6 +53,11 @@ class Img(Tag):
         super().__init__(*args, **kwargs)
         self._outfilepaths = dict()
 
+    @property
+    def infilepaths(self):
+        filepath = self.content_as_filepath()
+        return [filepath] if filepath is not None else []
+
     def content_as_filepath(self, content=None, context=None):
         """Returns a filepath from the content, if it's a valid filepath,
         or returns None if it isn't.
@@ -83,6 +89,13 @@ class Img(Tag):
 
         return None
 
+    def target_builder(self, target):
+        """The target builder for the given target, or None if there isn't one.
+        """
+        builders = self.context.get('builders', None) or dict()
+        target = target if target.startswith('.') else '.' + target
+        return builders.get(target, None)
+
     def add_file(self, target, content=None, attributes=None, context=None):
         """Convert and add the file dependency for the specified document
         target.
@@ -116,12 +129,15 @@ class Img(Tag):
         """
         # See if a cached path exists already. This can only be done if the
         # content, attributes and context aren't specified because the
-        # values of this tag will be used for these parameters.
+        # values of this tag will be used for these parameters. The cached path
+        # is only valid for the target builder to which the file was added.
+        target_builder = self.target_builder(target)
         if all(i is None for i in (content, attributes, context)):
-            if target in self._outfilepaths:
-                return self._outfilepaths[target]
+            builder, outfilepath = self._outfilepaths.get(target, (None, None))
+            if builder is not None and builder() is target_builder:
+                return outfilepath
             else:
-                can_cache = True
+                can_cache = target_builder is not None
         else:
             can_cache = False
 
@@ -151,7 +167,8 @@ class Img(Tag):
 
         # Cache the outfilepath, if possible
         if can_cache:
-            self._outfilepaths[target] = outfilepath
+            self._outfilepaths[target] = (weakref.ref(target_builder),
+                                          outfilepath)
 
         return outfilepath
 
diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index e97eab0..5b7429a 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -40,6 +40,8 @@ class Tag(object):
     hash : Optional[str]
         The hash for the tag's contents before processing. This is useful for
         detecting changes in the string's contents.
+    infilepaths : Iterable[:obj:`pathlib.Path`]
+        The files used by the tag, like images and data files.
     html_name : str
         If specified, use this name for the html tag. Otherwise, use name.
     tex_cmd : str
@@ -79,6 +81,7 @@ class Tag(object):
 
     aliases = None
     hash = None
+    infilepaths = ()
 
     html_name = None
     tex_cmd = None
-- 
2.43.0


From bd20c81b1b60a9e159e01107b39c31b818465c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:53 +0000
Subject: [PATCH 24/57] fix: build the epub again when its files change

---
 src/disseminate/builders/scanners/scanner.py  |  4 ++-
 .../builders/target_builders/epub_builder.py  |  1 +
 src/disseminate/builders/xhtml2epub.py        | 31 +++++++++++++------
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/disseminate/builders/scanners/scanner.py b/src/disseminate/builders/scanners/scanner.py
index 0d69422..7c60145 100644
--- a/src/disseminate/builders/scanners/scanner.py
+++ b/src/disseminate/builders/scanners/scanner.py
@@ -109,7 +109,9 @@ class Scanner(object):
                 valid_paths = [p for p in test_paths if p.is_file()]
 
                 # If no files are found, raise an exception
-                if not valid_paths and raise_error:
+                if not valid_paths and not raise_error:
+                    continue
+                elif not valid_paths:
                     msg = "Could not find the file '{}' in paths: '{}'"
                     raise FileNotFoundError(msg.format(stub, test_paths))
                 else:
diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 8b0a31f..3b11c14 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -126,6 +126,7 @@ class EpubBuilder(TargetBuilder):
         builder = builder_cls(env=self.env, context=render_context,
                               outfilepath=outfilepath, render_ext='.xhtml',
                               use_media=False, use_cache=True, target='xhtml')
+        builder.use_documents = True
         return builder
 
     def create_subbuilders(self):
diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index eedb186..b2507a0 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -9,6 +9,7 @@ import os.path
 from datetime import datetime, timezone
 
 from .composite_builders import SequentialBuilder
+from .utils import document_hashes
 from ..paths.utils import find_file
 from ..utils.classes import weakattr
 from ..utils.string import slugify
@@ -55,10 +56,26 @@ class XHtml2Epub(SequentialBuilder):
         opf_builder = self.create_opf_builder()
         self.subbuilders.append(opf_builder)
 
+    @property
+    def status(self):
+        status = super().status
+        return 'ready' if status == 'done' and self.build_needed() else status
+
+    def dependencies(self):
+        # The title, date and other entries of the content.opf are from the
+        # headers of documents
+        return document_hashes(self.context)
+
     @property
     def parameters(self):
         parameters = SequentialBuilder.parameters.fget(self)
 
+        # Scan for additional dependencies. This is done every time, rather
+        # during __init__ (as is usually done), because the xhtml files might
+        # not have been created until a previous builder has built them
+        parameters = parameters + self.env.scanner.scan(parameters=parameters,
+                                                        raise_error=False)
+
         # The parameters may included multiple references to the same files,
         # like css files, when building a tree. Remove these
         filtered_parameters = []
@@ -150,17 +167,12 @@ class XHtml2Epub(SequentialBuilder):
         return rv
 
     def build(self, complete=False):
-        # Scan for additional dependencies. This is done during the build,
-        # rather during __init__ (as is usually done), because the xhtml
-        # files might not have been created until a previous builder has
-        # built them
-        self.scan_parameters()
-
-        # Build subbuilders first
-        super().build(complete=complete)
+        # Make sure the additional dependencies (files in the xhtml) are available
+        self.env.scanner.scan(parameters=self.infilepaths)
 
         context = self.context
         outfilepath = self.outfilepath
+        outfilepath.parent.mkdir(parents=True, exist_ok=True)
         root_path = pathlib.Path('.')  # Base path for zip file
 
         logging.debug("Creating epub file '{}'".format(outfilepath))
@@ -181,8 +193,9 @@ class XHtml2Epub(SequentialBuilder):
             epub.write(contain_file,
                        arcname=root_path / 'META-INF' / 'container.xml')
 
-            # Create a builder for the content.opf
+            # Create a builder for the content.opf with the current files
             builder = self.create_opf_builder()
+            self.subbuilders = [builder]
             assert builder.build(complete=True)
             arc_name = self.package_subdir / builder.outfilepath.subpath
             epub.write(builder.outfilepath, arcname=arc_name)
-- 
2.43.0


From a09ef814532923717e7848a2835a0b2be144b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 25/57] fix: build dependencies again when their sources or
 files change while the target isn't rendered

---
 src/disseminate/builders/deciders/decider.py  | 11 +++++---
 .../builders/deciders/md5decider.py           | 25 ++++++++++++-------
 src/disseminate/builders/jinja_render.py      |  6 +++--
 .../target_builders/target_builder.py         |  5 ++--
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/disseminate/builders/deciders/decider.py b/src/disseminate/builders/deciders/decider.py
index 98565d0..22ee496 100644
--- a/src/disseminate/builders/deciders/decider.py
+++ b/src/disseminate/builders/deciders/decider.py
@@ -71,7 +71,7 @@ class Decider(object):
         """Return the Decision class associated with this decider."""
         return self.decision_cls(parent_decider=self)
 
-    def store_files(self, name, filepaths):
+    def store_files(self, name, filepaths, inputs=()):
         """Store the files created for a completed build.
 
         Parameters
@@ -80,10 +80,13 @@ class Decider(object):
             The unique name for the build.
         filepaths : Union[List[:obj:`pathlib.Path`], None]
             The files created, or None to remove the stored files.
+        inputs : Iterable[:obj:`pathlib.Path`]
+            The files from which these were created.
         """
         pass
 
-    def files_changed(self, name):
-        """True if the files stored for a build are missing or changed since
-        the build was completed, or the build wasn't completed."""
+    def files_changed(self, name, inputs=()):
+        """True if the files stored for a build, or the inputs, are missing or
+        changed since the build was completed, or the build wasn't completed.
+        """
         return False
diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index 221022c..f422ef4 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -73,21 +73,28 @@ class Md5Decider(Decider):
         if self._db is not None:
             self.db.close()
 
-    def store_files(self, name, filepaths):
+    def store_files(self, name, filepaths, inputs=()):
         key = 'files ' + name
         if filepaths is None:
             self.db.pop(key)
         else:
-            self.db[key] = [(str(filepath), hash_items(filepath))
-                            for filepath in filepaths]
+            self.db[key] = (self.hash_files(inputs),
+                            self.hash_files(filepaths))
 
-    def files_changed(self, name):
-        files = self.db.get('files ' + name, None)
-        if files is None:
+    def files_changed(self, name, inputs=()):
+        stored_inputs, stored_files = self.db.get('files ' + name,
+                                                  (None, None))
+        if stored_files is None or stored_inputs != self.hash_files(inputs):
             return True
-        files = [(pathlib.Path(filename), hash) for filename, hash in files]
-        return any(not filepath.is_file() or hash_items(filepath) != hash
-                   for filepath, hash in files)
+        filepaths = [pathlib.Path(filename) for filename, _ in stored_files]
+        return stored_files != self.hash_files(filepaths)
+
+    @staticmethod
+    def hash_files(filepaths):
+        """A list of filenames and the hashes for the contents of files."""
+        return [(str(filepath),
+                 hash_items(filepath) if filepath.is_file() else None)
+                for filepath in filepaths]
 
     @property
     def db_path(self):
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index ec506f0..dec5870 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -133,13 +133,15 @@ class JinjaRender(Builder):
         build_needed = super().build_needed(reset=reset)
 
         if reset:
+            # The builders of the dependencies were added by the render
             self.check_files = False
         elif not build_needed and self.check_files:
             # Evaluate whether the files, created for the dependencies that
             # were found when the file was last rendered, have changed.
             decider = self.env.decider
-            build_needed = decider.files_changed(name=str(self.outfilepath))
-            self.check_files = build_needed
+            build_needed = decider.files_changed(
+                name=str(self.outfilepath),
+                inputs=document_files(self.context))
         return build_needed
 
     def jinja_environment(self):
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 01edda0..8ebf171 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -5,7 +5,7 @@ import logging
 
 from ..jinja_render import JinjaRender
 from ..composite_builders import SequentialBuilder, ParallelBuilder
-from ..utils import generate_outfilepath
+from ..utils import generate_outfilepath, document_files
 from ...utils.classes import weakattr
 from ...utils.list import uniq
 
@@ -190,7 +190,8 @@ class TargetBuilder(SequentialBuilder):
             filepaths = [sb.outfilepath
                          for sb in self._parallel_builder.subbuilders]
             self.env.decider.store_files(name=str(self.outfilepath),
-                                         filepaths=uniq(filepaths))
+                                         filepaths=uniq(filepaths),
+                                         inputs=document_files(self.context))
             render_builder.rendered = False
 
     def build(self, complete=False):
-- 
2.43.0


From 70d25f8547688786ff41c8e181e676406db9b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:07 +0000
Subject: [PATCH 26/57] fix: a document doesn't need a build when all
 sub-builders of its target builders are done

---
 src/disseminate/builders/target_builders/receivers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/target_builders/receivers.py b/src/disseminate/builders/target_builders/receivers.py
index 3c565cd..84374a8 100644
--- a/src/disseminate/builders/target_builders/receivers.py
+++ b/src/disseminate/builders/target_builders/receivers.py
@@ -147,5 +147,7 @@ def build_needed(document):
     assert 'builders' in context
     builders = context['builders']
 
-    # check if any of the target builders need building
-    return any(b.build_needed() for b in builders.values())
+    # check if any of the target builders need building. A target builder with
+    # sub-builders is done if all of its sub-builders are done.
+    return any(b.build_needed() and b.status != 'done'
+               for b in builders.values())
-- 
2.43.0


From 78c6a20c8c2244d829ffa54475ae1eeed47da954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:51 +0000
Subject: [PATCH 27/57] fix: use the default template for the targets a
 template isn't available for

---
 src/disseminate/builders/jinja_render.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index dec5870..5d8938b 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -185,7 +185,17 @@ class JinjaRender(Builder):
         jinja_env = self.jinja_environment()
 
         # Retrieve the template
-        template = jinja_env.get_or_select_template(templates)
+        try:
+            template = jinja_env.get_or_select_template(templates)
+        except jinja2.TemplatesNotFound:
+            # If the template exists, but it isn't available for this target,
+            # use the default template of the target.
+            prefix = template_filepath.as_posix() + '/'
+            if not any(name.startswith(prefix)
+                       for name in jinja_env.list_templates()):
+                raise
+            default = '/'.join(('default', target, 'template.' + target))
+            template = jinja_env.get_template(default)
         return template
 
     @property
-- 
2.43.0


From e1ddb2ed538407f55e2255bb11fd57b572d2ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 28/57] fix: match python packages by their exact name and
 compare padded versions

---
 src/disseminate/checkers/python.py |  8 +++++---
 src/disseminate/checkers/utils.py  | 29 ++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fa8b461..0b6e460 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -5,7 +5,7 @@ import subprocess
 import sys
 
 from .checker import Checker
-from .utils import name_and_version
+from .utils import name_and_version, normalized_name, pad_versions
 from .types import SoftwareDependency, SoftwareDependencyList
 from ..software_dependencies import python_deps
 
@@ -76,7 +76,8 @@ class PythonChecker(Checker):
             name = name.lower()
 
             # See if the package name is available in the freeze tuple
-            matching_packages = [i for i in self.freeze if i.startswith(name)]
+            matching_packages = [i for i in self.freeze
+                                 if normalized_name(i) == normalized_name(name)]
 
             # If there are no matching packages, return None and do nothing
             # more
@@ -100,7 +101,8 @@ class PythonChecker(Checker):
                 # In this case, we don't care about the version--just that it's
                 # installed. It is, so mark it as installed
                 packages.available = True
-            elif installed_ver is not None and op(installed_ver, ver):
+            elif (installed_ver is not None and ver is not None and
+                  op(*pad_versions(installed_ver, ver))):
                 # Otherwise check the version number
                 packages.available = True
 
diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index d8744a1..76332e5 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -37,7 +37,7 @@ def name_and_version(string):
 
     m = re.search(r'([\w\.\-\_]+)'  # match package name
                   r'\s*(==|>=|<=|>|<|!=)?\s*'  # operator
-                  r'([\d\.]+)?',  # version number
+                  r'(\d+(?:\.\d+)*)?',  # version number
                   string)
 
     if m is None:
@@ -63,3 +63,30 @@ def name_and_version(string):
         version = tuple(map(int, version.split('.')))
 
     return name, op, version
+
+
+def normalized_name(string):
+    """The normalized name for a package from a package name string with an
+    optional specifier.
+
+    Examples
+    --------
+    >>> normalized_name('Test_ab.one>=0.3.1')
+    'test-ab-one'
+    """
+    parsed = name_and_version(string)
+    name = parsed[0] if parsed is not None else string
+    return re.sub(r'[-_.]+', '-', name).lower()
+
+
+def pad_versions(*versions):
+    """Pad version tuples with zeros to the same length.
+
+    Examples
+    --------
+    >>> pad_versions((2, 10), (2, 10, 1))
+    ((2, 10, 0), (2, 10, 1))
+    """
+    length = max(map(len, versions))
+    return tuple(version + (0,) * (length - len(version))
+                 for version in versions)
-- 
2.43.0


From 8a717067e199a5968cfe2cc568984f73f93e78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 29/57] fix: keep all columns, headers and rows of data tables

---
 src/disseminate/tags/data.py  | 77 ++++++++++++++++++++---------------
 src/disseminate/tags/table.py |  3 ++
 2 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 97444cb..5eb160c 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -46,6 +46,9 @@ class Data(Tag):
     data : Dict[Union[str, int], Tuple(str)]
         A data dict with the column names (str) or column index (int) as keys
         and the rows (tuple) as values.
+    columns : List[Tuple[Union[str, int], Tuple[str]]]
+        The names (or indices) and rows of all columns. Different columns may
+        have the same name.
     processed_headers : Union[List[:obj:`tags.Tag`], None]
         The headers processed into tags
     processed_rows : List[List[:obj:`tags.tag`]]
@@ -56,6 +59,7 @@ class Data(Tag):
     process_content = False
 
     data = None
+    columns = None
     processed_headers = None
     processed_rows = None
 
@@ -103,32 +107,29 @@ class Data(Tag):
     @property
     def headers(self):
         """The tuple of the data headers"""
-        return tuple(self.data.keys())
+        return tuple(name for name, _ in self.columns)
 
     @property
     def rows(self):
         """An iterator for the data rows"""
-        return (row for row in self.data.values())
+        return (row for _, row in self.columns)
 
     @property
     def rows_transpose(self):
         """An iterator for the data rows (transposed)"""
-        rows = [row for row in self.data.values()]
-        return (tuple(row) for row in transpose(rows))
+        return (tuple(row) for row in transpose(list(self.rows)))
 
     @property
     def num_cols(self):
         """The number of columns in the data"""
-        return len(self.data) if self.data is not None else None
+        return len(self.columns) if self.columns is not None else None
 
     @property
     def num_rows(self):
-        """The number of columns in the data"""
-        if self.data is None:
+        """The number of rows in the data"""
+        if self.columns is None:
             return None
-        first_key = self.data.keys()[0]
-        first_row = self.data[first_key]
-        return len(first_row)
+        return len(self.columns[0][1]) if self.columns else 0
 
 
 class DelimData(Data):
@@ -139,7 +140,9 @@ class DelimData(Data):
     delimiter = None
     skipinitialspace = True
 
-    def __init__(self, delimiter=',', *args, **kwargs):
+    def __init__(self, delimiter=None, *args, **kwargs):
+        if delimiter is None:
+            delimiter = '\t' if kwargs.get('name') == 'tsv' else ','
         self.delimiter = delimiter
         super().__init__(*args, **kwargs)
 
@@ -158,33 +161,41 @@ class DelimData(Data):
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
             # Parse the csv data.
-            # first_row is an len(cols) list
-            # rows is a len(rows) list of len(cols) lists
+            # rows is a len(rows) list of lists. Blank lines aren't rows.
             csv_reader = csv.reader(stream, delimiter=delimiter,
                                     skipinitialspace=self.skipinitialspace)
-            first_row = next(csv_reader)
-            rows = [row for row in csv_reader]
-
-            # Transpose the rows so that rows is a len(cols) list of len(rows)
-            # lists
-            rows = transpose(rows)
-
-            # Convert the rows into a data dict with the keys as column names
-            # (header) or column numbers (no header)
-            data = OrderedDict()
-
-            if 'noheader' in self.attributes:
-                # Prepend the first row to each row
-                for col_num, (first, row) in enumerate(zip(first_row, rows)):
-                    row.insert(0, first)
-                    data[col_num] = tuple(row)
+            rows = [row for row in csv_reader
+                    if len(row) > 1 or any(cell.strip() for cell in row)]
+
+            # Fill in missing cells so that each row has len(cols) cells
+            num_cols = max(map(len, rows), default=0)
+            rows = [row + [''] * (num_cols - len(row)) for row in rows]
+
+            # Use the first row as the column names (header) or use column
+            # numbers (no header)
+            if 'noheader' in self.attributes or not rows:
+                headers = range(num_cols)
             else:
-                # Use the first_row as the column names
-                for first, row in zip(first_row, rows):
-                    data[first] = tuple(row)
+                headers = rows.pop(0)
+
+            # Convert the rows into columns and a data dict with the keys as
+            # column names (header) or column numbers (no header)
+            columns = transpose(rows) if rows else [[] for _ in headers]
+            self.columns = [(header, tuple(column))
+                            for header, column in zip(headers, columns)]
 
             # Set the data attributes
-            self.data = data
+            self.data = OrderedDict(self.columns)
+
+    def default_fmt(self, content=None, attributes=None, **kwargs):
+        """Convert the data to a text with a line for each row"""
+        self.process_tags()
+        rows = ([self.processed_headers] if self.processed_headers else [])
+        rows += self.processed_rows
+        spacer = self.delimiter + (' ' if not self.delimiter.isspace() else '')
+        return "\n".join(spacer.join(format_content(cell, 'default_fmt')
+                                     for cell in row)
+                         for row in rows) + "\n"
 
     def tex_table(self, content=None, attributes=None, mathmode=False,
                   level=1):
diff --git a/src/disseminate/tags/table.py b/src/disseminate/tags/table.py
index e14fa60..4fc56bf 100644
--- a/src/disseminate/tags/table.py
+++ b/src/disseminate/tags/table.py
@@ -54,6 +54,9 @@ class BaseTable(Tag):
             elif isinstance(item, Data):
                 # Process the data in the table into a tabular environment
                 table_tex = item.tex_table(level=level + 1)
+                if item.num_cols == 0:
+                    # There is nothing to tabulate
+                    continue
                 col_types = 'l' * item.num_cols
                 content_tex += tex_env('tabular', attributes=col_types,
                                        formatted_content=table_tex)
-- 
2.43.0


From df8d6e0db6ba674e7db5eeecb7812d3efdadabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 30/57] fix: report images that cannot be found as missing
 images

---
 src/disseminate/tags/img.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 01a65ff..6a3ddb0 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -158,6 +158,10 @@ class Img(Tag):
         # specified, otherwise use this class's in_ext attribute
         in_ext = (content.suffix if isinstance(content, pathlib.Path) else
                   self.in_ext)
+        if in_ext is None:
+            msg = "Could not find the image file '{}'"
+            raise ImgFileNotFound(msg.format(content))
+
         outfilepaths = add_file.emit(parameters=parameters, context=context,
                                      in_ext=in_ext, target=target,
                                      use_cache=False)
-- 
2.43.0


From ece97f5e6496572f250b084a59c25cbd5aedd0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 31/57] fix: read the output of commands while waiting for them

---
 src/disseminate/builders/executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 4c0924d..862afdd 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -19,8 +19,14 @@ def run(timeout, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
-    popen.wait(timeout=timeout)
-    stdout, stderr = popen.communicate()
+    try:
+        # Read the output while waiting: a process waits for its output to be
+        # read once the pipes are full
+        stdout, stderr = popen.communicate(timeout=timeout)
+    except subprocess.TimeoutExpired:
+        popen.kill()
+        popen.communicate()
+        raise
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-- 
2.43.0


From 94f89e18c87f4cc8b14f23e0c8e48af0356435d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 32/57] fix: pass page numbers to pdf2svg as arguments

---
 src/disseminate/builders/pdf2svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index d0d22e4..b928035 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -33,7 +33,7 @@ class Pdf2svg(Builder):
     def run_cmd_args(self):
         args = list(super().run_cmd_args())
         if isinstance(self.page_no, int):
-            args += [self.page_no]
+            args += [str(self.page_no)]
         return tuple(args)
 
 
-- 
2.43.0


From 974a8b0519a0369466bc0a58c605e7bd43150693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 33/57] fix: keep file names as whole arguments of external
 commands

---
 src/disseminate/builders/builder.py | 39 ++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 935f15b..e44d437 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -24,6 +24,40 @@ class CustomFormatter(Formatter):
     """A custom formatter class for preparing actions into command-line
     arguments."""
 
+    def format_args(self, action, **kwargs):
+        """Format an action string into command-line arguments.
+
+        Values are placed in the action's arguments after the action is split,
+        so that values with spaces aren't split into more arguments. A field
+        for a list that constitutes a whole argument is formatted into an
+        argument for each of the list's items.
+
+        Parameters
+        ----------
+        action : str
+            The action string. ex: 'convert {builder.outfilepath}'
+        **kwargs
+            The values to use in formatting the fields.
+
+        Returns
+        -------
+        args : Tuple[str]
+            The command-line arguments.
+        """
+        args = []
+        for arg in action.split():
+            fields = list(self.parse(arg))
+            if len(fields) == 1 and fields[0][:1] == ('',):
+                # The argument is a single field
+                value, _ = super().get_field(fields[0][1], (), kwargs)
+                values = (value if isinstance(value, (list, tuple)) else
+                          [value])
+                # Values cannot be options
+                args += [self.clean_field(v).lstrip('-') for v in values]
+            else:
+                args.append(self.vformat(arg, (), kwargs))
+        return tuple(args)
+
     def get_field(self, field_name, args, kwargs):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
@@ -37,7 +71,7 @@ class CustomFormatter(Formatter):
         """Clean fields used for command-line processes"""
         if isinstance(f, pathlib.Path):
             f = pathvalidate.sanitize_filepath(f, platform='auto')
-        return str(f).strip('-*`')
+        return str(f)
 
 
 class Builder(metaclass=ABCMeta):
@@ -482,8 +516,7 @@ class Builder(metaclass=ABCMeta):
         """
         if isinstance(self.action, str):
             fmt = CustomFormatter()
-            fmt_action = fmt.format(self.action, builder=self)
-            return tuple(fmt_action.split())
+            return fmt.format_args(self.action, builder=self)
         else:
             return tuple()
 
-- 
2.43.0


From 023cbaf2ca5b0f07ea7c3246a9d9c6d6e97ab866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 34/57] fix: pass crop values of zero to pdf-crop-margins

---
 src/disseminate/builders/pdfcrop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/pdfcrop.py b/src/disseminate/builders/pdfcrop.py
index 0dbf375..f8122a2 100644
--- a/src/disseminate/builders/pdfcrop.py
+++ b/src/disseminate/builders/pdfcrop.py
@@ -35,9 +35,10 @@ class PdfCrop(Builder):
         super().__init__(env, **kwargs)
 
         # Set the crop for the image
-        crop = (self.get_parameter('crop') or
+        crop = self.get_parameter('crop')
+        crop = (crop if crop is not None else
                 self.get_parameter('crop_percentage'))
-        if crop:
+        if crop is not None:
             # Validate the crop arguments, if specified
             crop = (validate_tuple(crop, type=int, length=4,
                                    raise_error=True)
-- 
2.43.0


From 307e73b0ee5fbddc5ebb76b4181420c4659f38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:26 +0000
Subject: [PATCH 35/57] fix: pass the paths of files to external commands
 unchanged

---
 src/disseminate/builders/builder.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index e44d437..73b00fa 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -8,8 +8,6 @@ from abc import ABCMeta
 from string import Formatter
 from distutils.spawn import find_executable
 
-import pathvalidate
-
 from .executor import executor, run, runtime_error, runtime_success
 from .utils import generate_outfilepath, generate_mock_parameters
 from .exceptions import BuildError
@@ -53,7 +51,7 @@ class CustomFormatter(Formatter):
                 values = (value if isinstance(value, (list, tuple)) else
                           [value])
                 # Values cannot be options
-                args += [self.clean_field(v).lstrip('-') for v in values]
+                args += [str(v).lstrip('-') for v in values]
             else:
                 args.append(self.vformat(arg, (), kwargs))
         return tuple(args)
@@ -62,16 +60,9 @@ class CustomFormatter(Formatter):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
             # Make lists/tuples into space-separated strings
-            field_value = " ".join(self.clean_field(f) for f in field_value)
+            field_value = " ".join(str(f) for f in field_value)
             return field_value, field_name
-        return self.clean_field(field_value), field_name
-
-    @staticmethod
-    def clean_field(f):
-        """Clean fields used for command-line processes"""
-        if isinstance(f, pathlib.Path):
-            f = pathvalidate.sanitize_filepath(f, platform='auto')
-        return str(f)
+        return str(field_value), field_name
 
 
 class Builder(metaclass=ABCMeta):
-- 
2.43.0


From bfc4f5095d8a5748cf303c27e8fdace05ae3f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:45 +0000
Subject: [PATCH 36/57] fix: pass page numbers through to pdf2svg

---
 src/disseminate/builders/pdf2svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index b928035..4348ced 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -66,7 +66,7 @@ class Pdf2SvgCropScale(SequentialBuilder):
                               **kwargs)
             subbuilders.append(pdfcrop)
 
-        pdf2svg = Pdf2svg(env, use_cache=True, **kwargs)
+        pdf2svg = Pdf2svg(env, parameters=parameters, use_cache=True, **kwargs)
         subbuilders.append(pdf2svg)
 
         scale = self.get_parameter('scale', *parameters)
-- 
2.43.0


From e44c4b7d30b178bdb4b217e266197428a2f38039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 37/57] fix: don't overwrite the svg that is scaled when svgs
 are cached

---
 src/disseminate/builders/pdf2svg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index 4348ced..d46a090 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -71,6 +71,9 @@ class Pdf2SvgCropScale(SequentialBuilder):
 
         scale = self.get_parameter('scale', *parameters)
         if scale is not None:
+            # The svg that isn't scaled should not be overwritten by the final
+            # svg when this builder uses the cache
+            pdf2svg.outfilepath_append = '_unscaled'
             scalesvg = ScaleSvg(env, parameters=parameters, use_cache=True,
                                 **kwargs)
             subbuilders.append(scalesvg)
-- 
2.43.0


From a05ab04bc6c58b36b629b9539f62197db779db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:34 +0000
Subject: [PATCH 38/57] fix: render navigation tags in tex and xhtml targets

---
 src/disseminate/tags/navigation.py | 37 +++++++++++++-----------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index d8837f0..5ca9635 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -110,26 +110,25 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-    def html_fmt(self, cache=None, **kwargs):
+    def html_fmt(self, cache=None, method='html', **kwargs):
         context = self.context
         cache = dict() if cache is None else cache
+        key = 'next_' + method.strip('.')
 
-        if 'label' not in cache and 'next_html' in context:
-            label = context['next_html']
+        if 'label' not in cache and key in context:
+            label = context[key]
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).html_fmt(cache=cache, method=method,
+                                             **kwargs)
         else:
             return ""
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
-
 
 class Prev(Ref):
     """Produces links to the previous document.
@@ -166,26 +165,25 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-    def html_fmt(self, cache=None, **kwargs):
+    def html_fmt(self, cache=None, method='html', **kwargs):
         context = self.context
         cache = dict() if cache is None else cache
+        key = 'prev_' + method.strip('.')
 
-        if 'label' not in cache and 'prev_html' in context:
-            label = context['prev_html']
+        if 'label' not in cache and key in context:
+            label = context[key]
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).html_fmt(cache=cache, method=method,
+                                             **kwargs)
         else:
             return ""
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
-
 
 class OtherLink(Tag):
     """Produces a link to a source document or another target for this
@@ -247,11 +245,8 @@ class OtherLink(Tag):
     def tex_fmt(self, **kwargs):
         return self.other_relpath(this_target='.tex')
 
-    def html_fmt(self, **kwargs):
-        return self.other_relpath(this_target='.html')
-
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
+    def html_fmt(self, method='html', **kwargs):
+        return self.other_relpath(this_target='.' + method.strip('.'))
 
 
 class Srclink(OtherLink):
-- 
2.43.0


From a3ca12e3da834dd50a2cbf80ad58a868ee57709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:34 +0000
Subject: [PATCH 39/57] fix: render references in tex documents without a pdf
 target

---
 src/disseminate/tags/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 79599f9..5f7c83f 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -187,12 +187,12 @@ class Ref(Tag):
         document = self.document(cache=cache)
         try:
             target_filepath = document.target_filepath(target)
+            link = target_filepath.get_url(context=self.context)
         except TargetNotFound:
-            # The label's document isn't rendered in this target
+            # The label's document or this document isn't rendered in this
+            # target
             return None
 
-        link = target_filepath.get_url(context=self.context)
-
         return link + '#' + label.id if include_anchor else link
 
     def default_fmt(self, content=None, attributes=None, cache=None, **kwargs):
-- 
2.43.0


From 1b8271f05e6ed3a7c84f3a00c24c83ea2f297504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:33 +0000
Subject: [PATCH 40/57] fix: keep the hash in the names of files for documents
 with periods in their names

---
 src/disseminate/builders/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index 840cafc..c20382c 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -77,11 +77,12 @@ def generate_mock_parameters(env, parameters, project_root=None, subpath=None,
 
     # Generate a filename with the hash
     filename = "_".join(filter(bool, [filename, hash_value]))  # Remove None
-    filename = pathlib.Path(filename)
 
-    # Set the extension, if specified
+    # Set the extension, if specified. The filename doesn't have an extension,
+    # but it may have periods.
     if ext:
-        filename = filename.with_suffix(ext)
+        filename += ext
+    filename = pathlib.Path(filename)
 
     if subpath:
         return SourcePath(project_root=project_root,
-- 
2.43.0


From 42183a34ac5f74534c157eaaedab8329499994ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:56 +0000
Subject: [PATCH 41/57] fix: keep outfiles in the directory of the target for
 files outside of the project

---
 src/disseminate/builders/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index c20382c..9a9ac4a 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -1,6 +1,7 @@
 """
 Utilities for builders and environments
 """
+import os
 import pathlib
 
 from .deciders.utils_hash import hash_items
@@ -163,6 +164,12 @@ def generate_outfilepath(env, parameters, target=None, append=None, ext=None,
     if hasattr(subpath, 'is_absolute') and subpath.is_absolute():
         subpath = pathlib.Path(subpath.name)
 
+    # Outfiles for files outside of the project root are kept within the
+    # directory of the target
+    subpath = pathlib.Path(os.path.normpath(subpath))
+    subpath = pathlib.Path(*['_' if part == os.pardir else part
+                             for part in subpath.parts])
+
     # Add media_path, if specified
     if media_path and not str(subpath).startswith(media_path):
         subpath = rename(path=media_path / subpath, append=append,
-- 
2.43.0


From 30c6aee7b3d818881778415feab8b2986a27f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:31 +0000
Subject: [PATCH 42/57] fix: render references with formatted texts in tex
 documents without a link

---
 src/disseminate/tags/ref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 5f7c83f..0a43053 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -284,6 +284,7 @@ class Ref(Tag):
                                 context=context)
             content = format_content(content=processed_tag.content,
                                      format_func='tex_fmt', level=level + 1)
+            content = ''.join(content) if isinstance(content, list) else content
 
             # setup a url path and include the anchor if the label is not
             # for a DocumentLabel. DocumentLabels should just point to the
-- 
2.43.0


From 2563a58acd64d3fa54d682c409a4d4549bbfa34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 43/57] fix: keep spaces in the links to pdf files in tex
 documents

---
 src/disseminate/tags/ref.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 0a43053..2181553 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -4,10 +4,12 @@ The Ref tag to reference captions and other labels.
 from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
+from ..attributes import Attributes
 from ..document.exceptions import TargetNotFound
 from ..label_manager.types import DocumentLabel
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
+from ..utils.types import StringPositionalValue
 
 
 ref_label_dependencies = signal("ref_label_dependencies")
@@ -297,11 +299,12 @@ class Ref(Tag):
 
             # Add a target-specific attribute to the url so that it's
             # properly parsed for the '.tex' target
-            url = url + '.tex' if url else ''
+            attrs = (Attributes({url + '.tex': StringPositionalValue})
+                     if url else '')
 
             # wrap content in 'href' tag, if a url is present, otherwise
             # just return a regular text string
-            return (tex_cmd('href', attributes=url, formatted_content=content)
+            return (tex_cmd('href', attributes=attrs, formatted_content=content)
                     if url else content)
         else:
             return ''
-- 
2.43.0


From 511fa31921cb2949b557d3b47a994917a7500b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:51 +0000
Subject: [PATCH 44/57] fix: list figures, tables and collapsed contents, and
 mixed entries in document order

---
 src/disseminate/tags/toc.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index 5ab6adb..990ac87 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -140,13 +140,17 @@ class Toc(Tag):
         doc_id = context.get('doc_id') if 'all' not in self.toc_kind else None
         label_manager = self.context['label_manager']
 
-        labels = []
-        if 'heading' in self.toc_kind or 'headings' in self.toc_kind:
-            labels += label_manager.get_labels_by_kind(doc_id=doc_id,
-                                                       kinds='heading')
-        if 'document' in self.toc_kind or 'documents' in self.toc_kind:
-            labels += label_manager.get_labels_by_kind(doc_id=doc_id,
-                                                       kinds='document')
+        # Get the kinds of labels to list
+        if 'collapsed' in self.toc_kind:
+            kinds = {'document'}
+        else:
+            kinds = {kind for kind in ('heading', 'document', 'figure', 'table')
+                     if kind in self.toc_kind or kind + 's' in self.toc_kind}
+
+        # Get the labels for these kinds in the order of the documents
+        labels = [label for label
+                  in label_manager.get_labels_by_kind(doc_id=doc_id)
+                  if kinds.intersection(label.kind)]
 
         # Now filter apply additional filters
         doc_id = context.get('doc_id')
@@ -185,6 +189,8 @@ class Toc(Tag):
             # Get the level for the label
             if label.kind[-1] in heading_toc_levels:
                 level = heading_toc_levels.index(label.kind[-1])
+            elif label.kind[0] == 'document':
+                level = 1
             else:
                 level = current_level
             current_level = level
-- 
2.43.0


From 8357c8268b414b8b23382a78949c5cda406471da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:25 +0000
Subject: [PATCH 45/57] fix: escape titles in xhtml and epub files

---
 src/disseminate/builders/jinja_render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 5d8938b..e51925d 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -151,7 +151,8 @@ class JinjaRender(Builder):
             dl = jinja2.PackageLoader('disseminate', 'templates')
 
             # Create the environment
-            ae = jinja2.select_autoescape(['html', 'htm', 'xml'])
+            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml',
+                                           'opf'])
             env = jinja2.Environment(autoescape=ae, loader=dl,
                                      keep_trailing_newline=True,)
             env.filters['rewrite_path'] = rewrite_path
-- 
2.43.0


From 49a969bfd917e4726adb3b8b72d0569e1a404734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:25 +0000
Subject: [PATCH 46/57] fix: list png images in the manifest of epub files

---
 src/disseminate/builders/xhtml2epub.py              | 1 +
 src/disseminate/templates/default/xhtml/content.opf | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index b2507a0..5a92d25 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -122,6 +122,7 @@ class XHtml2Epub(SequentialBuilder):
         render_context['template'] = template_name
         render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
         render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
+        render_context['png_files'] = self.filepath_dict_list(fps, '.png')
         render_context['css_files'] = self.filepath_dict_list(fps, '.css')
 
         # Add required entries, if not present
diff --git a/src/disseminate/templates/default/xhtml/content.opf b/src/disseminate/templates/default/xhtml/content.opf
index a0a5c4f..9e9c35e 100644
--- a/src/disseminate/templates/default/xhtml/content.opf
+++ b/src/disseminate/templates/default/xhtml/content.opf
@@ -63,6 +63,11 @@
           id="{{ file.id }}"
           media-type="image/svg+xml"/>
     {%- endfor %}
+    {%- for file in png_files %}
+    <item href="{{ file.subpath }}"
+          id="{{ file.id }}"
+          media-type="image/png"/>
+    {%- endfor %}
   </manifest>
   <spine>
     <!-- The default reading order of elements -->
-- 
2.43.0


From 261cf3dcf84e4da634eff974d81ff5c1e8dc7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:37 +0000
Subject: [PATCH 47/57] fix: unique identifiers and one table of contents in
 epub files

---
 .../builders/target_builders/epub_builder.py       |  2 +-
 src/disseminate/builders/xhtml2epub.py             | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 3b11c14..d1dcfe6 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -77,7 +77,7 @@ class EpubBuilder(TargetBuilder):
     def has_toc_xhtml(self, xhtml_filepaths=None):
         """Evaluates whether there is a toc.xhtml file in the xhtml files."""
         xhtml_filepaths = xhtml_filepaths or self.xhtml_filepaths()
-        return any(filepath.subpath == 'toc.xhtml'
+        return any(str(filepath.subpath) == 'toc.xhtml'
                    for filepath in xhtml_filepaths)
 
     def create_toc_xhtml_builder(self, context=None,
diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 5a92d25..47ad59e 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -112,8 +112,8 @@ class XHtml2Epub(SequentialBuilder):
 
         # Place the title.xhtml and toc.xhtml file at the front of the
         # filepaths
-        front_fps = ([fp for fp in fps if fp.name == 'title.xhtml'] +
-                     [fp for fp in fps if fp.name == 'toc.xhtml'])
+        front_fps = [fp for name in ('title.xhtml', self.toc_filename)
+                     for fp in fps if os.path.normpath(fp.subpath) == name]
         fps = front_fps + [fp for fp in fps if fp not in front_fps]
 
         render_context = (self._render_context or
@@ -151,16 +151,18 @@ class XHtml2Epub(SequentialBuilder):
             if filepath.suffix != suffix:
                 continue
 
-            # Is the filepath a toc file?
-            is_toc = filepath.name == self.toc_filename
-
             # Generate the subpath for the file, as this is the relative
             # path in the epub container. Make sure to strip '..' relpath
             # elements, as this can create compatibility issues.
             subpath = str(os.path.normpath(filepath.subpath))
 
+            # Is the filepath the toc file?
+            is_toc = subpath == self.toc_filename
+
             # Generate the navigation identifier for the file
-            id = slugify(subpath) if not is_toc else 'toc'
+            # It should be unique and start with a letter.
+            id = ('id{}-{}'.format(len(rv), slugify(subpath)) if not is_toc
+                  else 'toc')
 
             rv.append({'id': id,
                        'subpath': subpath,
-- 
2.43.0


From 7d69e17907c6352119e654bc7d7a2089b80fd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:35 +0000
Subject: [PATCH 48/57] fix: show an error page for errors when projects are
 reloaded by the server

---
 src/disseminate/server/handlers/server.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/server/handlers/server.py b/src/disseminate/server/handlers/server.py
index 199dc3d..bf8b14f 100644
--- a/src/disseminate/server/handlers/server.py
+++ b/src/disseminate/server/handlers/server.py
@@ -22,11 +22,18 @@ server_static_path = server_template_path / 'media'
 class ServerHandler(RequestHandler):
     """A request handler for server functions"""
 
+    reload_projects = False
+
     def initialize(self, reload_projects=False, *args, **kwargs):
-        if reload_projects:
-            load_projects(self.application)
+        self.reload_projects = reload_projects
         super().initialize(*args, **kwargs)
 
+    def prepare(self):
+        # Errors raised in this method (unlike errors raised in initialize) are
+        # reported with an error page
+        if self.reload_projects:
+            load_projects(self.application)
+
     def set_default_headers(self):
         # Disable mimetype sniffing/guessing to allow viewing of plain/text
         self.set_header('X-Content-Type-Options', 'nosniff')
-- 
2.43.0


From cee9efd1fc865d1659b12b4d4bb7c1a27f1da757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:35 +0000
Subject: [PATCH 49/57] fix: only serve source files that are in the served
 directory

---
 src/disseminate/server/handlers/pygmentize.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/server/handlers/pygmentize.py b/src/disseminate/server/handlers/pygmentize.py
index 3381b2a..53c42b9 100644
--- a/src/disseminate/server/handlers/pygmentize.py
+++ b/src/disseminate/server/handlers/pygmentize.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from pygments import highlight
 from pygments.lexers import get_lexer_for_filename
 from pygments.formatters import HtmlFormatter
+from tornado.web import HTTPError
 
 from .server import ServerHandler
 
@@ -14,6 +15,17 @@ class PygmentizeHandler(ServerHandler):
     """A handler to pygmentize source files"""
 
     def get(self, path):
+        # Only serve files that are in the current directory
+        root = Path('.').resolve()
+        try:
+            filepath = (root / path).resolve()
+            filepath.relative_to(root)
+        except ValueError:
+            raise HTTPError(403, "'%s' is not in the served directory", path)
+
+        if not filepath.is_file():
+            raise HTTPError(404)
+
         # Get the appropriate lexer
         lexer = get_lexer_for_filename(path, stripall=True)
 
@@ -21,6 +33,6 @@ class PygmentizeHandler(ServerHandler):
         formatter = HtmlFormatter(linenos=True, cssclass="source", full=True)
 
         # Source file
-        code = Path(path).read_text()
+        code = filepath.read_text()
 
         self.write(highlight(code, lexer, formatter))
-- 
2.43.0


From 942432dad25bc6b1aa57f79526a8a0ceb090b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:35 +0000
Subject: [PATCH 50/57] fix: show the error page for errors of converters

---
 src/disseminate/templates/server/500.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/templates/server/500.html b/src/disseminate/templates/server/500.html
index bda2487..9171ac2 100644
--- a/src/disseminate/templates/server/500.html
+++ b/src/disseminate/templates/server/500.html
@@ -31,9 +31,9 @@
     <h4>Return code</h4>
     <div class="subbox">{{ exc.returncode }}</div>
     <h4>Shell output</h4>
-    <div class="subbox">{{ exc.shell_out | replace("\n", "<br/>") }}</div>
+    <div class="subbox">{% raw xhtml_escape(exc.shell_out).replace("\n", "<br/>") %}</div>
     <h4>Shell error</h4>
-    <div class="subbox">{{ exc.shell_err | replace("\n", "<br/>") }}</div>
+    <div class="subbox">{% raw xhtml_escape(exc.shell_err).replace("\n", "<br/>") %}</div>
   </div>
   {% end %}
 {% end %}
\ No newline at end of file
-- 
2.43.0


From 9d61750caad08f884ffce466fcc5e00a293a870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:35 +0000
Subject: [PATCH 51/57] fix: serve the stylesheets of the server that are
 symbolic links

---
 src/disseminate/server/handlers/__init__.py |  5 +++--
 src/disseminate/server/handlers/static.py   | 12 +++++++++++-
 src/disseminate/server/urls.py              |  6 +++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/server/handlers/__init__.py b/src/disseminate/server/handlers/__init__.py
index eb7b23f..208b602 100644
--- a/src/disseminate/server/handlers/__init__.py
+++ b/src/disseminate/server/handlers/__init__.py
@@ -3,8 +3,9 @@ from .tree import TreeHandler
 from .checkers import CheckerHandler
 from .signals import SignalHandler
 from .pygmentize import PygmentizeHandler
-from .static import CustomStaticFileHandler
+from .static import CustomStaticFileHandler, MediaFileHandler
 
 __all__ = ('ServerHandler', 'server_template_path', 'server_static_path',
            'TreeHandler', 'CheckerHandler', 'SignalHandler',
-           'PygmentizeHandler', 'CustomStaticFileHandler')
+           'PygmentizeHandler', 'CustomStaticFileHandler',
+           'MediaFileHandler')
diff --git a/src/disseminate/server/handlers/static.py b/src/disseminate/server/handlers/static.py
index 71206d9..2c1c220 100644
--- a/src/disseminate/server/handlers/static.py
+++ b/src/disseminate/server/handlers/static.py
@@ -3,9 +3,19 @@ Static file handlers
 """
 from tornado.web import StaticFileHandler
 
-from .server import ServerHandler
+from .server import ServerHandler, server_template_path
 
 
 class CustomStaticFileHandler(ServerHandler, StaticFileHandler):
     """A custom static file handler that handles rendered error pages"""
     pass
+
+
+class MediaFileHandler(CustomStaticFileHandler):
+    """A static file handler for the media files of the server.
+
+    Some of these files are symbolic links to the files of other templates."""
+
+    def initialize(self, *args, **kwargs):
+        super().initialize(*args, **kwargs)
+        self.allowed_symlink_directory = str(server_template_path.parent)
diff --git a/src/disseminate/server/urls.py b/src/disseminate/server/urls.py
index 7d9b52b..fd1c0ef 100644
--- a/src/disseminate/server/urls.py
+++ b/src/disseminate/server/urls.py
@@ -4,15 +4,15 @@ URL routes for the Tornado server
 from tornado.web import url
 
 from .handlers import (TreeHandler, CheckerHandler, SignalHandler,
-                       CustomStaticFileHandler, PygmentizeHandler,
-                       server_static_path)
+                       CustomStaticFileHandler, MediaFileHandler,
+                       PygmentizeHandler, server_static_path)
 
 
 url_patterns = [
     url(r"/", TreeHandler, name="tree"),
     url(r"/checkers", CheckerHandler, name="checkers"),
     url(r"/signals", SignalHandler, name="signals"),
-    url(r"/media/(.*)", CustomStaticFileHandler, {'path': server_static_path}),
+    url(r"/media/(.*)", MediaFileHandler, {'path': server_static_path}),
     url(r"/(.*\.dm)", PygmentizeHandler, name='disseminate_source'),
     url(r"/(.*\.tex)", PygmentizeHandler, name='latex_source',
         kwargs={'reload_projects': True}),
-- 
2.43.0


From 6526d085813c79fd1e7117fd2f6fb85040d9cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:36 +0000
Subject: [PATCH 52/57] fix: escape the links to files in the document listing
 of the server

---
 src/disseminate/templates/server/tree_item.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/templates/server/tree_item.html b/src/disseminate/templates/server/tree_item.html
index 8ef5a57..0bb80fb 100644
--- a/src/disseminate/templates/server/tree_item.html
+++ b/src/disseminate/templates/server/tree_item.html
@@ -2,11 +2,11 @@
 <tr class="level-{{ doc['level'] }}">
   <td class="num">{{ doc['level'] }}-{{ doc['number'] }}</td>
   <td class="src">
-    <a href="/{{ doc['src_filepath'] }}">{{ doc['src_filepath'].subpath }}</a>
+    <a href="/{{ url_escape(str(doc['src_filepath']), plus=False) }}">{{ doc['src_filepath'].subpath }}</a>
   </td>
   <td class="tgt">
     {% if doc['targets'] %}
-      ({% for i, (target, link) in enumerate(doc['targets'].items()) %}<a href="{{ link }}">{{ target.replace('.', '') }}</a>{% if i < len(doc['targets']) - 1 %}, {% end %}{% end %})
+      ({% for i, (target, link) in enumerate(doc['targets'].items()) %}<a href="{{ url_escape(str(link), plus=False) }}">{{ target.replace('.', '') }}</a>{% if i < len(doc['targets']) - 1 %}, {% end %}{% end %})
     {% end %}
   </td>
   <td class="date">
-- 
2.43.0


From f790dbf0c48fff0bc93e37de85b831fcb79b4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:28 +0000
Subject: [PATCH 53/57] fix: well-formed xhtml for symbols without an html
 entity

---
 src/disseminate/tags/text.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index e39217b..61b3609 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -1,7 +1,9 @@
 """
 Text formatting tags
 """
-from html.entities import name2codepoint
+from html import unescape
+
+from markupsafe import escape
 
 from .tag import Tag
 from .exceptions import TagError, assert_content_str
@@ -283,8 +285,13 @@ class Symbol(Tag):
 
         # Convert the entity name to a code point, needed for epub.
         # ex: 'gamma' -> '#947'
-        content = ('#' + str(name2codepoint[content])
-                   if content in name2codepoint else content)
+        text = unescape('&' + content + ';')
+        if len(text) == 1:
+            content = '#' + str(ord(text))
+        else:
+            # Names that aren't known are not defined in xhtml either, and these
+            # are shown as text, like in html
+            return escape(text) if level == 1 else text
         return xhtml_entity(entity=content, method=method, level=level)
 
 
-- 
2.43.0


From 7ab0d96ce7c5c2f757dfe32497b66be7c06495d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:00 +0000
Subject: [PATCH 54/57] fix: use a delimiter that isn't in verbatim texts in
 tex documents

---
 src/disseminate/formats/tex.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/formats/tex.py b/src/disseminate/formats/tex.py
index d56ee94..235b647 100644
--- a/src/disseminate/formats/tex.py
+++ b/src/disseminate/formats/tex.py
@@ -197,10 +197,8 @@ def tex_verb(formatted_content):
     """
     assert isinstance(formatted_content, str)
 
-    if '|' not in formatted_content:
-        return "\\verb|" + formatted_content + "|"
-    elif '!' not in formatted_content:
-        return "\\verb!" + formatted_content + "!"
-    elif '^' not in formatted_content:
-        return "\\verb^" + formatted_content + "^"
+    # Use the first delimiter that isn't in the content
+    for delimiter in '|!^/+=:;.,?-~@#$&"\'`<>()[]_':
+        if delimiter not in formatted_content:
+            return "\\verb" + delimiter + formatted_content + delimiter
     return formatted_content
-- 
2.43.0


From 3c7b7cf36d49909173e15052db10960e14f0d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:37 +0000
Subject: [PATCH 55/57] fix: only collapse the contents of all documents

---
 src/disseminate/tags/toc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index 990ac87..ac760a6 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -141,7 +141,7 @@ class Toc(Tag):
         label_manager = self.context['label_manager']
 
         # Get the kinds of labels to list
-        if 'collapsed' in self.toc_kind:
+        if 'collapsed' in self.toc_kind and 'all' in self.toc_kind:
             kinds = {'document'}
         else:
             kinds = {kind for kind in ('heading', 'document', 'figure', 'table')
-- 
2.43.0


From 62f8f1f5f2e376732bc95c4343df99093f151538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:01 +0000
Subject: [PATCH 56/57] fix: don't build documents included by another document
 as separate projects

---
 src/disseminate/builders/environment.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 007d566..8d6a8b0 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -194,9 +194,20 @@ class Environment(object):
                           document_extension=document_extension)
             src_filepaths = fps
 
-        return [Environment(src_filepath=src_filepath, target_root=target_root)
+        envs = [Environment(src_filepath=src_filepath, target_root=target_root)
                 for src_filepath in src_filepaths]
 
+        # Root documents are not included by other documents. Remove the
+        # environments for documents that are built with another environment.
+        for env in list(envs):
+            src_filepath = env.root_document.src_filepath
+            if any(src_filepath == doc.src_filepath
+                   for other in envs if other is not env
+                   for doc in other.root_document.documents_list(
+                       only_subdocuments=True, recursive=True)):
+                envs.remove(env)
+        return envs
+
     def create_root_builder(self, document=None):
         """Create a root parallel builder for the target builders of the given
         document or the root document.
-- 
2.43.0


From b5a290afe19de9f0676946b0f90bd4e55738a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:01 +0000
Subject: [PATCH 57/57] fix: use a half width for widths over 33% to 34%

---
 src/disseminate/tags/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index 31f6455..603021f 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -237,7 +237,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
     windows = {99: (75, 100),  # ]75, 100]
                74: (67, 75),
                65: (50, 67),
-               49: (34, 50),
+               49: (33, 50),
                32: (25, 33),
                24: (0, 25)}
 
@@ -342,7 +342,7 @@ def xhtml_percentwidth(attributes, target='.html'):
     windows = {'w100': (75, 100),  # ]75, 100]
                'w75': (67, 75),
                'w66': (50, 67),
-               'w50': (34, 50),
+               'w50': (33, 50),
                'w33': (25, 33),
                'w25': (0, 25)}
 
-- 
2.43.0

