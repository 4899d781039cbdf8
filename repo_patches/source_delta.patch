From 1d5ceec94655485919f3f7ccd107cd2aba7c3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 01/31] fix: search values and property names containing quotes

Values were pasted between double quotes into XPath queries, so a quote in
a title, custom property name, tag, path, ... broke or changed the query.
---
 pykeepass/entry.py     | 11 ++++++-----
 pykeepass/pykeepass.py | 18 ++++++++++--------
 pykeepass/xpath.py     | 20 ++++++++++++++++++++
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..ca20661 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -7,6 +7,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement
+from .xpath import fill
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -88,7 +89,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), history=True, first=True)
         if field is not None:
             return field.text
 
@@ -104,11 +105,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/..', key), history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -354,7 +355,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath(fill('String/Key[text()="{}"]/..', key), first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -377,7 +378,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..55ae373 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -26,7 +26,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, group_xp, path_xp
+from .xpath import attachment_xp, entry_xp, fill, group_xp, path_xp, quote
 
 logger = logging.getLogger(__name__)
 
@@ -393,11 +393,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += fill(path_xp[regex]['group'], group, flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['entry'], element, flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['group'], element, flags=flags)
 
         else:
             if tree is not None:
@@ -408,7 +408,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)
 
                 kwargs.pop('string')
 
@@ -419,14 +419,16 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join('contains(text(),{})'.format(quote(t)) for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
-                if value is not None:
-                    xp += keys_xp[regex][key].format(value, flags=flags)
+                if key == 'tags' and value is not None:
+                    xp += keys_xp[regex][key].format(value)
+                elif value is not None:
+                    xp += fill(keys_xp[regex][key], value, flags=flags)
 
         res = self._xpath(
             xp,
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..f3d5a4b 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,3 +1,23 @@
+def quote(value):
+    """Format a value as an XPath string literal
+
+    XPath has no escape sequences, so a value which contains both kinds of
+    quotes has to be assembled with concat()
+    """
+    value = str(value)
+    if '"' not in value:
+        return '"{}"'.format(value)
+    if "'" not in value:
+        return "'{}'".format(value)
+    return 'concat({})'.format(
+        ', \'"\', '.join('"{}"'.format(part) for part in value.split('"'))
+    )
+
+def fill(template, *values, **kwargs):
+    """Fill the `"{}"` placeholders of an XPath template with string literals"""
+    literals = [quote(value) for value in values]
+    return template.replace('"{}"', '{}').format(*literals, **kwargs)
+
 attachment_xp = {
     False: {
         'id': '/Value[@Ref="{}"]/..',
-- 
2.43.0


From 133202ef20a622fe05003adfcb730e6df1c725e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 02/31] fix: ignore uuid, tags and string search arguments
 which are None

find_entries() documents its arguments as optional, but uuid=None, tags=None
and string=None raised instead of being ignored like the other ones.
---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 55ae373..48fb1a1 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -405,6 +405,9 @@ class PyKeePass:
 
             xp += prefix
 
+            # arguments which are None do not restrict the search
+            kwargs = {k: v for k, v in kwargs.items() if v is not None or k not in keys_xp[regex]}
+
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-- 
2.43.0


From 0e211be822e11309a745ef7c240e122e03a8905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 03/31] fix: find_attachments() without criteria on KDBX3
 databases

The binary pool in Meta/Binaries was matched as well and could not be cast.
---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 48fb1a1..d9b14dc 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -762,7 +762,8 @@ class PyKeePass:
                 `False`).
         """
 
-        prefix = '//Binary' if recursive else '/Binary'
+        # Binary elements of Meta/Binaries (KDBX3) have no Key
+        prefix = '//Binary[Key]' if recursive else '/Binary[Key]'
         res = self._find(prefix, attachment_xp, path=path, tree=element, **kwargs)
 
         return res
-- 
2.43.0


From 9b02c7c4022656adaad6de24639fc06cc7968407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 04/31] fix: delete_binary() with a negative id

A negative id removed a binary counted from the end of the list and then
shifted the references of all attachments.
---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d9b14dc..19db6b0 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -855,6 +855,9 @@ class PyKeePass:
         Raises:
             `IndexError`: raised when binary with given ID does not exist
         """
+        if id < 0:
+            raise BinaryError('No such binary with id {}'.format(id))
+
         try:
             if self.version >= (4, 0):
                 # remove binary element from inner header
-- 
2.43.0


From ec3e02c4e33d566849e29b18234b19250f39910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 05/31] fix: delete_binary() kept references in history entries

They then pointed to the binary which moved to the deleted id.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 19db6b0..3d7edcf 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -870,7 +870,7 @@ class PyKeePass:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From 5a64809d1d8a9febbd041b01103c064ba7794d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 06/31] fix: IDs of KDBX3 binaries after deleting or reading
 out of order

delete_binary() removed the element at a position instead of the one with
the given ID and left a gap in the IDs, so that a binary added afterwards
got an ID already in use.
---
 pykeepass/pykeepass.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3d7edcf..baf3784 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -782,7 +782,7 @@ class PyKeePass:
             binaries = [a.data[1:] for a in self.payload.inner_header.binary]
         else:
             binaries = []
-            for elem in self._xpath('/KeePassFile/Meta/Binaries/Binary'):
+            for elem in self._binary_elements():
                 if elem.text is not None:
                     if elem.get('Compressed') == 'True':
                         data = zlib.decompress(
@@ -793,10 +793,15 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                binaries.append(data)
 
         return binaries
 
+    def _binary_elements(self):
+        """Binary elements of a KDBX3 database, ordered by their ID"""
+        elements = self._xpath('/KeePassFile/Meta/Binaries/Binary')
+        return sorted(elements, key=lambda elem: int(elem.attrib['ID']))
+
     def add_binary(self, data, compressed=True, protected=True):
         """Add binary data to database.  Note this does not create an attachment (see `Entry.add_attachment`)
 
@@ -864,8 +869,12 @@ class PyKeePass:
                 self.payload.inner_header.binary.pop(id)
             else:
                 # remove binary element from XML
-                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
+                elements = self._binary_elements()
+                elem = elements.pop(id)
+                elem.getparent().remove(elem)
+                # the IDs of the remaining elements stay contiguous
+                for i, elem in enumerate(elements):
+                    elem.attrib['ID'] = str(i)
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
-- 
2.43.0


From de5f694f5176b980ad32317b7ffbcb9d0cdc4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 07/31] fix: protected binaries in KDBX3 files

Binary elements marked Protected take part in the inner random stream.
Leaving them out garbled all protected values after them.
---
 pykeepass/kdbx_parsing/common.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..b05f71b 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -207,7 +207,8 @@ class UnprotectedStream(Adapter):
     Iterate etree for Protected elements and decrypt using cipher
     provided by get_cipher"""
 
-    protected_xpath = '//Value[@Protected=\'True\']'
+    # binaries stored in the XML (KDBX3) may be protected too
+    protected_xpath = '//*[self::Value or self::Binary][@Protected=\'True\']'
 
     def __init__(self, protected_stream_key, subcon):
         super().__init__(subcon)
@@ -218,7 +219,11 @@ class UnprotectedStream(Adapter):
         for elem in tree.xpath(self.protected_xpath):
             if elem.text is not None:
                 try:
-                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
+                    result = cipher.decrypt(base64.b64decode(elem.text))
+                    if elem.tag == 'Binary':
+                        elem.text = base64.b64encode(result)
+                        continue
+                    result = result.decode('utf-8')
                     # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                     result = re.sub(
                         '[^\u0020-\uD7FF\u0009\u000A\u000D\uE000-\uFFFD\U00010000-\U0010FFFF]+',
@@ -238,11 +243,11 @@ class UnprotectedStream(Adapter):
         cipher = self.get_cipher(self.protected_stream_key(con))
         for elem in tree_copy.xpath(self.protected_xpath):
             if elem.text is not None:
-                elem.text = base64.b64encode(
-                    cipher.encrypt(
-                        elem.text.encode('utf-8')
-                    )
-                )
+                if elem.tag == 'Binary':
+                    data = base64.b64decode(elem.text)
+                else:
+                    data = elem.text.encode('utf-8')
+                elem.text = base64.b64encode(cipher.encrypt(data))
         return tree_copy
 
 
-- 
2.43.0


From 614e9bd315a6cb1552497213e11fd60055a0684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:45 +0000
Subject: [PATCH 08/31] fix: entry index and reindex in groups with interleaved
 children

Positions were counted over all children of the group, so subgroups or
attributes between the entries shifted them.
---
 pykeepass/entry.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index ca20661..773b6d0 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -134,10 +134,7 @@ class Entry(BaseElement):
     def index(self):
         """`int`: index of a entry within a group"""
         group = self.group._element
-        children = group.getchildren()
-        first_index = self.group._first_entry
-        index = children.index(self._element)
-        return index - first_index
+        return group.findall('Entry').index(self._element)
 
     def reindex(self, new_index):
         """Move entry to a new index within a group
@@ -146,9 +143,15 @@ class Entry(BaseElement):
             new_index (`int`): new index for the entry starting at 0
         """
         group = self.group._element
-        first_index = self.group._first_entry
-        group.remove(self._element)
-        group.insert(new_index+first_index, self._element)
+        # other elements may be interleaved with the entries
+        others = group.findall('Entry')
+        others.remove(self._element)
+        if not others:
+            return
+        if new_index < len(others):
+            others[max(new_index, 0)].addprevious(self._element)
+        else:
+            others[-1].addnext(self._element)
 
     @property
     def attachments(self):
-- 
2.43.0


From 38f154974e4ab5721ce9488ce324a03424ae7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:22 +0000
Subject: [PATCH 09/31] fix: deref() of unset fields, uuids and malformed
 references

An unset field or a wanted uuid raised TypeError, and a reference by
something that is not a uuid raised ValueError.
---
 pykeepass/pykeepass.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index baf3784..358d3e5 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -921,11 +921,19 @@ class PyKeePass:
             wanted_field = field_to_attribute[wanted_field]
             search_in = field_to_attribute[search_in]
             if search_in == 'uuid':
-                search_value = uuid.UUID(search_value)
+                try:
+                    search_value = uuid.UUID(search_value)
+                except ValueError:
+                    # not a uuid, so no entry has it
+                    return None
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
+            wanted_value = getattr(ref_entry, wanted_field)
+            if wanted_field == 'uuid':
+                wanted_value = wanted_value.hex.upper()
+            # unset fields are empty
+            value = value.replace(ref, wanted_value or '')
         return self.deref(value)
 
 
-- 
2.43.0


From 403aa3e25dead93ed8f2ab16f14bed092aceef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:52 +0000
Subject: [PATCH 10/31] fix: offsets of plaintext dates

Dates with a UTC offset were read as if the offset was zero, and plaintext
dates in KDBX4 databases raised struct.error.
---
 pykeepass/pykeepass.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 358d3e5..3717df6 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1050,10 +1050,14 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
-        else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            except (BinasciiError, struct.error):
+                # some programs write plaintext dates to KDBX4 databases
+                pass
+
+        date = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if date.tzinfo is None:
+            date = date.replace(tzinfo=timezone.utc)
+        return date.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From 17ac63f394f7364b8b8fe2793d1fa32f62c920a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 11/31] fix: refused values no longer delete the old one

When a field, name, icon, ... was set to something XML can not hold, the
old value was removed before the new one was refused.
---
 pykeepass/attachment.py  |  3 ++-
 pykeepass/baseelement.py | 14 +++++++++++++-
 pykeepass/entry.py       | 20 +++++++++++---------
 pykeepass/pykeepass.py   |  7 ++++---
 4 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 8006e12..72834f8 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -1,4 +1,5 @@
 from . import entry
+from .baseelement import set_text
 from .exceptions import BinaryError
 
 
@@ -35,7 +36,7 @@ class Attachment:
 
     @filename.setter
     def filename(self, filename):
-        self._element.find('Key').text = filename
+        set_text(self._element.find('Key'), filename)
 
     @property
     def entry(self):
diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..29d41a7 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -7,6 +7,16 @@ from lxml import etree
 from lxml.builder import E
 
 
+def set_text(element, value):
+    """Set text of an XML element.  If the value is refused, the old text is kept"""
+    old_text = element.text
+    try:
+        element.text = value
+    except (TypeError, ValueError):
+        element.text = old_text
+        raise
+
+
 class BaseElement:
     """Entry and Group inherit from this class"""
 
@@ -46,10 +56,12 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        # create new element first, this fails if the value is refused
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 773b6d0..97e8db9 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -6,7 +6,7 @@ from lxml.etree import Element, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
-from .baseelement import BaseElement
+from .baseelement import BaseElement, set_text
 from .xpath import fill
 
 logger = logging.getLogger(__name__)
@@ -115,13 +115,15 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
+        # create new field first, this fails if the value is refused
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new_field = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new_field)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
@@ -295,7 +297,7 @@ class Entry(BaseElement):
     def autotype_enabled(self, value):
         enabled = self._element.find('AutoType/Enabled')
         if value is not None:
-            enabled.text = str(value)
+            set_text(enabled, str(value))
         else:
             enabled.text = None
 
@@ -309,7 +311,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -321,7 +323,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3717df6..5d05312 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -16,6 +16,7 @@ from lxml import etree
 from lxml.builder import E
 
 from .attachment import Attachment
+from .baseelement import set_text
 from .entry import Entry
 from .exceptions import (
     BinaryError,
@@ -276,7 +277,7 @@ class PyKeePass:
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def database_description(self):
@@ -287,7 +288,7 @@ class PyKeePass:
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def default_username(self):
@@ -298,7 +299,7 @@ class PyKeePass:
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
-- 
2.43.0


From 028d05c52792e16326caebd0ec800ea54dd33345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:29 +0000
Subject: [PATCH 12/31] fix: create_database() with a transformed key

It was passed to save() as filename.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5d05312..5f4fd3d 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1087,7 +1087,7 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 17aec568869c3c7a0942028a46327198f8b725a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 13/31] fix: saving clobbered files with the suffix .tmp

The temporary file replaced any file which has the same name as the
database but ends in .tmp, including a database called that way itself.
---
 pykeepass/pykeepass.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5f4fd3d..5fe7bc8 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -167,7 +167,8 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            # the name is unique, so that no other file can be clobbered either
+            filename_tmp = Path(filename).with_name(uuid.uuid4().hex + '.tmp')
             try:
                 KDBX.build_file(
                     self.kdbx,
@@ -177,10 +178,11 @@ class PyKeePass:
                     transformed_key=transformed_key,
                     decrypt=True
                 )
-            except Exception as e:
-                os.remove(filename_tmp)
-                raise e
-            shutil.move(filename_tmp, filename)
+                shutil.move(filename_tmp, filename)
+            except BaseException:
+                if filename_tmp.exists():
+                    os.remove(filename_tmp)
+                raise
 
     @property
     def version(self):
-- 
2.43.0


From cea01a209c600998df8caf47032f6630ddc979ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 14/31] fix: key files of 64 bytes which are almost hexadecimal

int() accepts signs, underscores, whitespace and prefixes, for which the
following decoding failed.  Such files have to be hashed.
---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index b05f71b..baa66ac 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -154,7 +154,7 @@ def compute_key_composite(password=None, keyfile=None):
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
                 try:
-                    int(keyfile_bytes, 16)
+                    codecs.decode(keyfile_bytes, 'hex')
                     is_hex = True
                 except ValueError:
                     is_hex = False
-- 
2.43.0


From fd0a03beae85abe81ba4592c8867fcfee3bb2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:00 +0000
Subject: [PATCH 15/31] fix: verify the KDBX4 header before deriving the key
 from it

Corrupted key derivation parameters were used, which could take any amount
of time and memory or raise undocumented errors, before the header checksum
was looked at.
---
 pykeepass/kdbx_parsing/kdbx4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx4.py b/pykeepass/kdbx_parsing/kdbx4.py
index 426d3ac..bf1bca0 100644
--- a/pykeepass/kdbx_parsing/kdbx4.py
+++ b/pykeepass/kdbx_parsing/kdbx4.py
@@ -284,14 +284,15 @@ UnpackedPayload = Reparsed(
 # -------------------- Main KDBX Structure --------------------
 
 Body = Struct(
-    "transformed_key" / Computed(compute_transformed),
-    "master_key" / Computed(compute_master),
+    # verify the header before its key derivation parameters are used
     "sha256" / Checksum(
         Bytes(32),
         lambda data: hashlib.sha256(data).digest(),
         this._.header.data,
         # exception=HeaderChecksumError,
     ),
+    "transformed_key" / Computed(compute_transformed),
+    "master_key" / Computed(compute_master),
     "cred_check" / If(this._._.decrypt,
         Checksum(
             Bytes(32),
-- 
2.43.0


From 145eb8c6080509be13f3d4237b0f5a153082f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 16/31] fix: kdf_algorithm and database_salt for other minor
 versions

KDBX 3.0 and 4.1 files are read as well.
---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5fe7bc8..5452894 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -203,9 +203,9 @@ class PyKeePass:
     def kdf_algorithm(self):
         """`str`: key derivation algorithm used by database during decryption.
         Can be one of 'aeskdf', 'argon2', or 'argon2id'"""
-        if self.version == (3, 1):
+        if self.version < (4, 0):
             return 'aeskdf'
-        elif self.version == (4, 0):
+        else:
             kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
             if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                 return 'argon2'
@@ -225,7 +225,7 @@ class PyKeePass:
        """`bytes`: salt of database kdf. This can be used for adding additional
        credentials which are used in extension to current keyfile."""
 
-       if self.version == (3, 1):
+       if self.version < (4, 0):
             return self.kdbx.header.value.dynamic_header.transform_seed.data
 
        kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
-- 
2.43.0


From 81187e8156677721c7920a3a2dc26014a151c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 17/31] fix: add_entry() with title, username or password None

These are documented to be allowed but raised TypeError.
---
 pykeepass/entry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 97e8db9..d71e425 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -40,10 +40,10 @@ class Entry(BaseElement):
                 expiry_time=expiry_time,
                 icon=icon
             )
-            self._element.append(E.String(E.Key('Title'), E.Value(title)))
-            self._element.append(E.String(E.Key('UserName'), E.Value(username)))
+            self._element.append(E.String(E.Key('Title'), E.Value(title or '')))
+            self._element.append(E.String(E.Key('UserName'), E.Value(username or '')))
             self._element.append(
-                E.String(E.Key('Password'), E.Value(password, Protected="True"))
+                E.String(E.Key('Password'), E.Value(password or '', Protected="True"))
             )
             if url:
                 self._element.append(E.String(E.Key('URL'), E.Value(url)))
-- 
2.43.0


From 4496cae40f4898c8ee94f8eb1b93158522aba5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 18/31] fix: delete_history(all=True) of an entry without
 history

It raised TypeError.
---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index d71e425..7425fa5 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -442,7 +442,9 @@ class Entry(BaseElement):
         """
 
         if all:
-            self._element.remove(self._element.find('History'))
+            history = self._element.find('History')
+            if history is not None:
+                self._element.remove(history)
         else:
             self._element.find('History').remove(history_entry._element)
 
-- 
2.43.0


From 28f66f31ce14cfe8a1fbb88d23a1a2786f1a4d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 19/31] fix: reading databases with large texts or deeply
 nested groups

Texts over 10 MB (including KDBX3 attachments) and more than 256 nested
elements can be saved, but could not be read back.
---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index baa66ac..cebf377 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -195,7 +195,7 @@ class XML(Adapter):
     """Bytes <---> lxml etree"""
 
     def _decode(self, data, con, path):
-        parser = etree.XMLParser(remove_blank_text=True)
+        parser = etree.XMLParser(remove_blank_text=True, huge_tree=True)
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-- 
2.43.0


From ace178e09f186093269e58315f69dfa9c5a1139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:23 +0000
Subject: [PATCH 20/31] fix: autotype settings of entries without autotype
 elements

Other programs write no Association element for entries which have none, so
that setting autotype_window raised AttributeError.
---
 pykeepass/entry.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 7425fa5..3d6016b 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -286,20 +286,31 @@ class Entry(BaseElement):
     def history(self, value):
         raise NotImplementedError()
 
+    def _set_autotype_text(self, path, value):
+        """Set text of an autotype element, which other programs may have omitted"""
+        element = self._element.find(path)
+        if element is not None:
+            set_text(element, value)
+        elif value is not None:
+            *parents, tag = path.split('/')
+            element = getattr(E, tag)(value)
+            parent = self._element
+            for parent_tag in parents:
+                if parent.find(parent_tag) is None:
+                    parent.append(Element(parent_tag))
+                parent = parent.find(parent_tag)
+            parent.append(element)
+
     @property
     def autotype_enabled(self):
         """bool: get or set autotype enabled state.  Determines whether `autotype_sequence` should be used"""
         enabled = self._element.find('AutoType/Enabled')
-        if enabled.text is not None:
+        if enabled is not None and enabled.text is not None:
             return enabled.text == 'True'
 
     @autotype_enabled.setter
     def autotype_enabled(self, value):
-        enabled = self._element.find('AutoType/Enabled')
-        if value is not None:
-            set_text(enabled, str(value))
-        else:
-            enabled.text = None
+        self._set_autotype_text('AutoType/Enabled', None if value is None else str(value))
 
     @property
     def autotype_sequence(self):
@@ -311,7 +322,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        set_text(self._element.find('AutoType/DefaultSequence'), value)
+        self._set_autotype_text('AutoType/DefaultSequence', value)
 
     @property
     def autotype_window(self):
@@ -323,7 +334,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        set_text(self._element.find('AutoType/Association/Window'), value)
+        self._set_autotype_text('AutoType/Association/Window', value)
 
     @property
     def is_a_history_entry(self):
-- 
2.43.0


From a2c532fa74a74ee5f05228a5ee95df246c4fa27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 21/31] fix: attachments of history entries

They were always reported as empty.
---
 pykeepass/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3d6016b..e7683f6 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -162,7 +162,8 @@ class Entry(BaseElement):
             element=self,
             filename='.*',
             regex=True,
-            recursive=False
+            recursive=False,
+            history=True
         )
 
     def add_attachment(self, id, filename):
-- 
2.43.0


From 42a67cd0189a9a634683763c2fe64daec4eeaf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:21 +0000
Subject: [PATCH 22/31] fix: opening a file of an unsupported version succeeded
 without content

---
 pykeepass/kdbx_parsing/kdbx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx.py b/pykeepass/kdbx_parsing/kdbx.py
index 935da4a..b0998aa 100644
--- a/pykeepass/kdbx_parsing/kdbx.py
+++ b/pykeepass/kdbx_parsing/kdbx.py
@@ -1,4 +1,4 @@
-from construct import Bytes, Check, Int16ul, RawCopy, Struct, Switch, this
+from construct import Bytes, Check, Error, Int16ul, RawCopy, Struct, Switch, this
 
 from .kdbx3 import Body as Body3
 from .kdbx3 import DynamicHeader as DynamicHeader3
@@ -22,7 +22,9 @@ KDBX = Struct(
                 this.major_version,
                 {3: DynamicHeader3,
                  4: DynamicHeader4
-                 }
+                 },
+                # unsupported version
+                default=Error
             )
         )
     ),
-- 
2.43.0


From 6adf4775b0519050609365aa490686db34b26dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:22 +0000
Subject: [PATCH 23/31] fix: uuids and attachment ids are not regular
 expressions

---
 pykeepass/xpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index f3d5a4b..52985bb 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -24,7 +24,7 @@ attachment_xp = {
         'filename': '/Key[text()="{}"]/..'
     },
     True: {
-        'id': '/Value[re:test(@Ref, "{}", "{flags}")]/..',
+        'id': '/Value[@Ref="{}"]/..', # not a string
         'filename': '/Key[re:test(text(), "{}", "{flags}")]/..'
     }
 }
@@ -61,7 +61,7 @@ entry_xp = {
         'password': '/String/Key[text()="Password"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'url': '/String/Key[text()="URL"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[text()="{}"]/..', # not a string
         'tags': '/Tags[{}]/..', # no regular expression support for tags
         'string': '/String/Key[text()="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
@@ -79,7 +79,7 @@ group_xp = {
     },
     True: {
         'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[text()="{}"]/..', # not a string
         'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
     }
 }
-- 
2.43.0


From 12102e5e0b45b9db0ab7f058a045770e40157d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:37 +0000
Subject: [PATCH 24/31] fix: refused arguments of append, trash and credchange
 days changed the database

---
 pykeepass/group.py     | 5 +++--
 pykeepass/pykeepass.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykeepass/group.py b/pykeepass/group.py
index 46adb7e..5937162 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -95,8 +95,9 @@ class Group(BaseElement):
         """
         # FIXME: check if `entries` is iterable instead of list
         if isinstance(entries, list):
-            for e in entries:
-                self._element.append(e._element)
+            # this fails before anything is moved if one of them is not an entry
+            for element in [e._element for e in entries]:
+                self._element.append(element)
         else:
             self._element.append(entries._element)
 
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5452894..21ea796 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -449,10 +449,10 @@ class PyKeePass:
     def _can_be_moved_to_recyclebin(self, entry_or_group):
         if entry_or_group == self.root_group:
             return False
+        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
         recyclebin_group = self.recyclebin_group
         if recyclebin_group is None:
             return True
-        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
         elem = self._xpath('./UUID[text()="{}"]/..'.format(uuid_str), tree=recyclebin_group._element, first=True, cast=False)
         return elem is None
 
@@ -980,13 +980,13 @@ class PyKeePass:
     def credchange_required_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeForce'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeRec'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @property
     def credchange_date(self):
-- 
2.43.0


From dd05cb8238a1ec8b05a808a232a103e373c9b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:17 +0000
Subject: [PATCH 25/31] fix: the last microseconds before year 10000 in KDBX4
 databases

---
 pykeepass/pykeepass.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 21ea796..dc16416 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1024,17 +1024,16 @@ class PyKeePass:
         """`bytes` or `str`: Convert datetime to base64 or plaintext string"""
 
         if self.version >= (4, 0):
-            diff_seconds = int(
-                (
-                    value -
-                    datetime(
-                        year=1,
-                        month=1,
-                        day=1,
-                        tzinfo=timezone.utc
-                    )
-                ).total_seconds()
-            )
+            # integer arithmetic, since total_seconds() rounds up the latest dates
+            diff_seconds = (
+                value -
+                datetime(
+                    year=1,
+                    month=1,
+                    day=1,
+                    tzinfo=timezone.utc
+                )
+            ) // timedelta(seconds=1)
             return base64.b64encode(
                 struct.pack('<Q', diff_seconds)
             ).decode('utf-8')
-- 
2.43.0


From bf78bb96bf35ebdc71476893718fe2cc193c7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:01 +0000
Subject: [PATCH 26/31] fix: saving databases with non-ASCII element names

---
 pykeepass/kdbx_parsing/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index cebf377..e2fae32 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -199,7 +199,8 @@ class XML(Adapter):
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-        return etree.tostring(tree)
+        # names of elements have no ASCII representation unlike texts
+        return etree.tostring(tree, encoding='utf-8')
 
 
 class UnprotectedStream(Adapter):
-- 
2.43.0


From c9946b4560e27610aa7ee9f80b03c7296a0db713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:03 +0000
Subject: [PATCH 27/31] fix: a failed read() changed the path and credentials
 of an open database

---
 pykeepass/pykeepass.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index dc16416..00a28c0 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -88,11 +88,7 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
@@ -136,6 +132,11 @@ class PyKeePass:
             else:
                 raise
 
+        # a failed read leaves an open database as it was
+        self.filename = filename
+        self._password = password
+        self._keyfile = keyfile
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 40fda03e71449a7fd7b69b23d51cc468ac86d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:34 +0000
Subject: [PATCH 28/31] fix: searching for a text with thousands of quotes
 raised an XPath error

---
 pykeepass/xpath.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 52985bb..72476d6 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -9,9 +9,15 @@ def quote(value):
         return '"{}"'.format(value)
     if "'" not in value:
         return "'{}'".format(value)
-    return 'concat({})'.format(
-        ', \'"\', '.join('"{}"'.format(part) for part in value.split('"'))
-    )
+    parts = ['"{}"'.format(part) for part in value.split('"')]
+    # nested, since the number of arguments is limited
+    separator = ', \'"\', '
+    while len(parts) > 1:
+        parts = [
+            'concat({}, "")'.format(separator.join(parts[i:i + 100]))
+            for i in range(0, len(parts), 100)
+        ]
+    return parts[0]
 
 def fill(template, *values, **kwargs):
     """Fill the `"{}"` placeholders of an XPath template with string literals"""
-- 
2.43.0


From 2c5e9297d7150abfdda32fe5b4fa702d1f8bae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 29/31] fix: an attachment with a negative id showed another
 attachment's data

---
 pykeepass/attachment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 72834f8..bcc64ce 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -48,6 +48,9 @@ class Attachment:
     def binary(self):
         """`bytes`: binary data this attachment points to"""
         try:
+            # no counting from the end
+            if self.id < 0:
+                raise IndexError
             return self._kp.binaries[self.id]
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(self.id))
-- 
2.43.0


From 1c0ce7016b6d46639910d38b8eaf7ff5d38da722 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 14:51:26 +0000
Subject: [PATCH 30/31] fix: times and expiry that another program had left out
 could not be read or set

---
 pykeepass/baseelement.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 29d41a7..f440a5a 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -108,30 +108,35 @@ class BaseElement:
                 return self._kp._decode_time(prop.text)
 
     def _set_times_property(self, prop, value):
+        self._set_times_text(prop, self._kp._encode_time(value))
+
+    def _set_times_text(self, tag, text):
+        # other programs may have omitted these elements
         times = self._element.find('Times')
-        if times is not None:
-            prop = times.find(prop)
-            if prop is not None:
-                prop.text = self._kp._encode_time(value)
+        if times is None:
+            times = etree.SubElement(self._element, 'Times')
+        element = times.find(tag)
+        if element is None:
+            element = etree.SubElement(times, tag)
+        element.text = text
 
     @property
     def expires(self):
-        times = self._element.find('Times')
-        d = times.find('Expires').text
-        if d is not None:
-            return d == 'True'
+        d = self._element.find('Times/Expires')
+        if d is not None and d.text is not None:
+            return d.text == 'True'
 
     @expires.setter
     def expires(self, value):
-        d = self._element.find('Times').find('Expires')
-        d.text = 'True' if value else 'False'
+        self._set_times_text('Expires', 'True' if value else 'False')
 
     @property
     def expired(self):
-        if self.expires:
+        expiry_time = self.expiry_time
+        if self.expires and expiry_time is not None:
             return (
                 datetime.now(timezone.utc) >
-                self.expiry_time
+                expiry_time
             )
 
         return False
-- 
2.43.0


From 77c6768c4447d020041da00708141fe722edc1c4 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 14:52:25 +0000
Subject: [PATCH 31/31] fix: metadata that another program had left out could
 not be read or set

---
 pykeepass/pykeepass.py | 52 ++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 00a28c0..cec93d6 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -256,6 +256,8 @@ class PyKeePass:
     def recyclebin_group(self):
         """`Group`: RecycleBin Group of database"""
         elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
+        if elem is None or elem.text is None:
+            return None
         recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )
         return self.find_groups(uuid=recyclebin_uuid, first=True)
 
@@ -271,37 +273,47 @@ class PyKeePass:
         excluding history"""
         return self.find_entries()
 
+    def _meta_element(self, tag):
+        """Metadata element, which is created if another program has omitted it"""
+        elem = self._xpath('/KeePassFile/Meta/' + tag, first=True)
+        if elem is None:
+            elem = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), tag)
+        return elem
+
     @property
     def database_name(self):
         """`str`: Name of database"""
         elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        return elem.text
+        if elem is not None:
+            return elem.text
 
     @database_name.setter
     def database_name(self, name):
-        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
+        item = self._meta_element('DatabaseName')
         set_text(item, str(name))
 
     @property
     def database_description(self):
         """`str`: Description of the database"""
         elem = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        return elem.text
+        if elem is not None:
+            return elem.text
 
     @database_description.setter
     def database_description(self, name):
-        item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
+        item = self._meta_element('DatabaseDescription')
         set_text(item, str(name))
 
     @property
     def default_username(self):
         """`str` or `None`: default user.  `None` if not set"""
         elem = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        return elem.text
+        if elem is not None:
+            return elem.text
 
     @default_username.setter
     def default_username(self, name):
-        item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
+        item = self._meta_element('DefaultUserName')
         set_text(item, str(name))
 
     def xml(self):
@@ -551,7 +563,7 @@ class PyKeePass:
             return existing_group
         kwargs.setdefault('group_name', 'Recycle Bin')
         group = self.add_group( self.root_group, **kwargs)
-        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
+        elem = self._meta_element('RecycleBinUUID')
         elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')
         return group
 
@@ -826,10 +838,7 @@ class PyKeePass:
             c = Container(type='binary', data=data)
             self.payload.inner_header.binary.append(c)
         else:
-            binaries = self._xpath(
-                '/KeePassFile/Meta/Binaries',
-                first=True
-            )
+            binaries = self._meta_element('Binaries')
             if compressed:
                 # gzip compression
                 compressor = zlib.compressobj(
@@ -967,45 +976,44 @@ class PyKeePass:
     def credchange_required_days(self):
         """`int`: Days until password update should be required"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChangeForce', first=True)
-        if e is not None:
+        if e is not None and e.text is not None:
             return int(e.text)
 
     @property
     def credchange_recommended_days(self):
         """`int`: Days until password update should be recommended"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChangeRec', first=True)
-        if e is not None:
+        if e is not None and e.text is not None:
             return int(e.text)
 
     @credchange_required_days.setter
     def credchange_required_days(self, days):
-        path = '/KeePassFile/Meta/MasterKeyChangeForce'
-        item = self._xpath(path, first=True)
+        item = self._meta_element('MasterKeyChangeForce')
         set_text(item, str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
-        path = '/KeePassFile/Meta/MasterKeyChangeRec'
-        item = self._xpath(path, first=True)
+        item = self._meta_element('MasterKeyChangeRec')
         set_text(item, str(days))
 
     @property
     def credchange_date(self):
         """`datetime.datetime`: get or set UTC time of last credential change"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChanged', first=True)
-        if e is not None:
+        if e is not None and e.text is not None:
             return self._decode_time(e.text)
 
     @credchange_date.setter
     def credchange_date(self, date):
-        mk_time = self._xpath('/KeePassFile/Meta/MasterKeyChanged', first=True)
-        mk_time.text = self._encode_time(date)
+        date_text = self._encode_time(date)
+        mk_time = self._meta_element('MasterKeyChanged')
+        mk_time.text = date_text
 
     @property
     def credchange_required(self):
         """`bool`: Check if credential change is required"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_required_days == -1:
+        if change_date is None or self.credchange_required_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_required_days
@@ -1014,7 +1022,7 @@ class PyKeePass:
     def credchange_recommended(self):
         """`bool`: Check if credential change is recommended"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_recommended_days == -1:
+        if change_date is None or self.credchange_recommended_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_recommended_days
-- 
2.43.0

