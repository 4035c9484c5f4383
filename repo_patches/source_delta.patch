From 5cc30b30fea27922d6bc490e5cc01bd0c0c4cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 01/30] fix: bind search values to XPath variables so that
 quotes in them neither fail nor change the query

---
 pykeepass/entry.py     | 10 +++---
 pykeepass/pykeepass.py | 28 +++++++++++-----
 pykeepass/xpath.py     | 72 +++++++++++++++++++++---------------------
 3 files changed, 61 insertions(+), 49 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..4196159 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -88,7 +88,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath('String/Key[text()=$key]/../Value', variables={'key': str(key)}, history=True, first=True)
         if field is not None:
             return field.text
 
@@ -104,11 +104,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath('String/Key[text()=$key]/..', variables={'key': str(key)}, history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath('String/Key[text()=$key]/../Value', variables={'key': str(key)}, first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -354,7 +354,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath('String/Key[text()=$key]/..', variables={'key': str(key)}, first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -377,7 +377,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath('String/Key[text()=$key]/../Value', variables={'key': str(key)}, first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..ce19848 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -322,7 +322,7 @@ class PyKeePass:
         with open(filename, 'wb') as f:
             f.write(self.xml())
 
-    def xpath(self, xpath_str, tree=None, first=False, cast=False, **kwargs):
+    def xpath(self, xpath_str, tree=None, first=False, cast=False, variables=None, **kwargs):
         """Look up elements in the XML payload and return corresponding object.
 
         Internal function which searches the payload lxml ElementTree for
@@ -340,6 +340,8 @@ class PyKeePass:
             cast (`bool`): If True, matches are instead instantiated as
                 pykeepass Group, Entry, or Attachment objects.  An exception
                 is raised if a match cannot be cast.  (default `False`)
+            variables (`dict`, optional): values of the XPath variables used in
+                the query, by name
 
         Returns:
             `list` of `Group`, `Entry`, `Attachment`, or `lxml.etree.Element`
@@ -349,7 +351,8 @@ class PyKeePass:
             tree = self.tree
         logger.debug('xpath query: ' + xpath_str)
         elements = tree.xpath(
-            xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}
+            xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'},
+            **(variables or {})
         )
 
         res = []
@@ -380,6 +383,14 @@ class PyKeePass:
 
         xp = ''
 
+        # search values are bound to XPath variables, since they may contain quotes
+        variables = {}
+
+        def var(value):
+            name = 'v{}'.format(len(variables))
+            variables[name] = str(value)
+            return '$' + name
+
         if not history:
             prefix += '[not(ancestor::History)]'
 
@@ -393,11 +404,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += path_xp[regex]['group'].format(var(group), flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += path_xp[regex]['entry'].format(var(element), flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += path_xp[regex]['group'].format(var(element), flags=flags)
 
         else:
             if tree is not None:
@@ -408,7 +419,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += keys_xp[regex]['string'].format(var(key), var(value), flags=flags)
 
                 kwargs.pop('string')
 
@@ -419,20 +430,21 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(f'contains(text(),{var(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
                 if value is not None:
-                    xp += keys_xp[regex][key].format(value, flags=flags)
+                    xp += keys_xp[regex][key].format(value if key == 'tags' else var(value), flags=flags)
 
         res = self._xpath(
             xp,
             tree=tree._element if tree else None,
             first=first,
             cast=True,
+            variables=variables,
             **kwargs
         )
 
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..b3ad812 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,65 +1,65 @@
 attachment_xp = {
     False: {
-        'id': '/Value[@Ref="{}"]/..',
-        'filename': '/Key[text()="{}"]/..'
+        'id': '/Value[@Ref={}]/..',
+        'filename': '/Key[text()={}]/..'
     },
     True: {
-        'id': '/Value[re:test(@Ref, "{}", "{flags}")]/..',
-        'filename': '/Key[re:test(text(), "{}", "{flags}")]/..'
+        'id': '/Value[re:test(@Ref, {}, "{flags}")]/..',
+        'filename': '/Key[re:test(text(), {}, "{flags}")]/..'
     }
 }
 
 path_xp = {
     False: {
-        'group': '/Group/Name[text()="{}"]/..',
-        'entry': '/Entry/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
+        'group': '/Group/Name[text()={}]/..',
+        'entry': '/Entry/String/Key[text()="Title"]/../Value[text()={}]/../..',
     },
     True: {
-        'group': '/Group/Name[re:test(text(), "{}", "{flags}")]/..',
-        'entry': '/Entry/String/Key[text()="Title"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
+        'group': '/Group/Name[re:test(text(), {}, "{flags}")]/..',
+        'entry': '/Entry/String/Key[text()="Title"]/../Value[re:test(text(), {}, "{flags}")]/../..',
     }
 }
 
 entry_xp = {
     False: {
-        'title': '/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
-        'username': '/String/Key[text()="UserName"]/../Value[text()="{}"]/../..',
-        'password': '/String/Key[text()="Password"]/../Value[text()="{}"]/../..',
-        'url': '/String/Key[text()="URL"]/../Value[text()="{}"]/../..',
-        'notes': '/String/Key[text()="Notes"]/../Value[text()="{}"]/../..',
-        'uuid': '/UUID[text()="{}"]/..',
+        'title': '/String/Key[text()="Title"]/../Value[text()={}]/../..',
+        'username': '/String/Key[text()="UserName"]/../Value[text()={}]/../..',
+        'password': '/String/Key[text()="Password"]/../Value[text()={}]/../..',
+        'url': '/String/Key[text()="URL"]/../Value[text()={}]/../..',
+        'notes': '/String/Key[text()="Notes"]/../Value[text()={}]/../..',
+        'uuid': '/UUID[text()={}]/..',
         'tags': '/Tags[{}]/..',
-        'string': '/String/Key[text()="{}"]/../Value[text()="{}"]/../..',
-        'autotype_sequence': '/AutoType/DefaultSequence[text()="{}"]/../..',
-        'autotype_window': '/AutoType/Association/Window[text()="{}"]/../../..',
-        'autotype_enabled': '/AutoType/Enabled[text()="{}"]/../..',
-        'otp': '/String/Key[text()="otp"]/../Value[text()="{}"]/../..',
+        'string': '/String/Key[text()={}]/../Value[text()={}]/../..',
+        'autotype_sequence': '/AutoType/DefaultSequence[text()={}]/../..',
+        'autotype_window': '/AutoType/Association/Window[text()={}]/../../..',
+        'autotype_enabled': '/AutoType/Enabled[text()={}]/../..',
+        'otp': '/String/Key[text()="otp"]/../Value[text()={}]/../..',
     },
     True: {
-        'title': '/String/Key[text()="Title"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'username': '/String/Key[text()="UserName"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'password': '/String/Key[text()="Password"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'url': '/String/Key[text()="URL"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'title': '/String/Key[text()="Title"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'username': '/String/Key[text()="UserName"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'password': '/String/Key[text()="Password"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'url': '/String/Key[text()="URL"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'uuid': '/UUID[re:test(text(), {}, "{flags}")]/..',
         'tags': '/Tags[{}]/..', # no regular expression support for tags
-        'string': '/String/Key[text()="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
-        'autotype_window': '/AutoType/Association/Window[re:test(text(), "{}", "{flags}")]/../../..',
-        'autotype_enabled': '/AutoType/Enabled[re:test(text(), "{}", "{flags}")]/../..',
-        'otp': '/String/Key[text()="otp"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
+        'string': '/String/Key[text()={}]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), {}, "{flags}")]/../..',
+        'autotype_window': '/AutoType/Association/Window[re:test(text(), {}, "{flags}")]/../../..',
+        'autotype_enabled': '/AutoType/Enabled[re:test(text(), {}, "{flags}")]/../..',
+        'otp': '/String/Key[text()="otp"]/../Value[re:test(text(), {}, "{flags}")]/../..',
     }
 }
 
 group_xp = {
     False: {
-        'name': '/Name[text()="{}"]/..',
-        'uuid': '/UUID[text()="{}"]/..',
-        'notes': '/Notes[text()="{}"]/..',
+        'name': '/Name[text()={}]/..',
+        'uuid': '/UUID[text()={}]/..',
+        'notes': '/Notes[text()={}]/..',
     },
     True: {
-        'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
-        'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
+        'name': '/Name[re:test(text(), {}, "{flags}")]/..',
+        'uuid': '/UUID[re:test(text(), {}, "{flags}")]/..',
+        'notes': '/Notes[re:test(text(), {}, "{flags}")]/..',
     }
 }
-- 
2.43.0


From fcecb1078fbd27d503739cfd1fb787c1755f1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 02/30] fix: reopen databases with text over 10 MB or groups
 nested over 250 levels, which save writes

---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..319d466 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -195,7 +195,7 @@ class XML(Adapter):
     """Bytes <---> lxml etree"""
 
     def _decode(self, data, con, path):
-        parser = etree.XMLParser(remove_blank_text=True)
+        parser = etree.XMLParser(remove_blank_text=True, huge_tree=True)
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-- 
2.43.0


From cc9b8e4d960756ec2c6797f39d1e996977de9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 03/30] fix: hash 64-byte keyfiles that int() accepts but that
 are not hexadecimal, instead of failing

---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 319d466..43e0ae9 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -154,7 +154,7 @@ def compute_key_composite(password=None, keyfile=None):
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
                 try:
-                    int(keyfile_bytes, 16)
+                    codecs.decode(keyfile_bytes, 'hex')
                     is_hex = True
                 except ValueError:
                     is_hex = False
-- 
2.43.0


From 423fa71329d4eee0ca0a7f937dbe9c3bf21fa9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 04/30] fix: create_database passed transformed_key to save()
 as the filename

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ce19848..3f4f67b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1068,7 +1068,7 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 68a8840c2e5b28efe65cd242dda8e6fe3ed3e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 05/30] fix: kdf_algorithm and database_salt for minor versions
 other than 3.1 and 4.0

---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3f4f67b..5d083b9 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -200,9 +200,9 @@ class PyKeePass:
     def kdf_algorithm(self):
         """`str`: key derivation algorithm used by database during decryption.
         Can be one of 'aeskdf', 'argon2', or 'argon2id'"""
-        if self.version == (3, 1):
+        if self.version < (4, 0):
             return 'aeskdf'
-        elif self.version == (4, 0):
+        else:
             kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
             if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                 return 'argon2'
@@ -222,7 +222,7 @@ class PyKeePass:
        """`bytes`: salt of database kdf. This can be used for adding additional
        credentials which are used in extension to current keyfile."""
 
-       if self.version == (3, 1):
+       if self.version < (4, 0):
             return self.kdbx.header.value.dynamic_header.transform_seed.data
 
        kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
-- 
2.43.0


From f112f6a402c17492e4c5f45d2aa7fb73ad5144aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 06/30] fix: decode plaintext times with a UTC offset to the
 right instant, and in KDBX4 databases at all

---
 pykeepass/pykeepass.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5d083b9..1b7214b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1036,10 +1036,13 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
-        else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            except (BinasciiError, struct.error):
+                pass
+
+        value = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if value.tzinfo is None:
+            value = value.replace(tzinfo=timezone.utc)
+        return value.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From 65b325a4c58461f6b029a8ac7176acb679623a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 07/30] fix: a rejected value no longer deletes the field it
 was meant to replace

---
 pykeepass/baseelement.py |  3 ++-
 pykeepass/entry.py       | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..b0fd10b 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -46,10 +46,11 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 4196159..353333a 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -114,13 +114,14 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new_field = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new_field)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
-- 
2.43.0


From 093b1ac254b36ebb0555efe36b2e5df6f167e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 08/30] fix: compare entries and groups by UUID, not by a hash
 of it that other UUIDs share

---
 pykeepass/baseelement.py | 8 ++++++--
 pykeepass/entry.py       | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index b0fd10b..edb08e4 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -169,12 +169,16 @@ class BaseElement:
     def __repr__(self):
         return self.__str__()
 
+    @property
+    def _identity(self):
+        return (self.uuid,)
+
     def __hash__(self):
-        return hash((self.uuid,))
+        return hash(self._identity)
 
     def __eq__(self, other):
         if isinstance(other, BaseElement):
-            return hash(self) == hash(other)
+            return self._identity == other._identity
         return NotImplemented
 
     def touch(self, modify=False):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 353333a..7f409ff 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -453,7 +453,8 @@ class HistoryEntry(Entry):
         pathstr = super().__str__()
         return 'HistoryEntry: {}'.format(pathstr)
 
-    def __hash__(self):
+    @property
+    def _identity(self):
         # All history items share the same UUID with themselves and their
         # parent, so consider the mtime also
-        return hash((self.uuid, self.mtime))
+        return (self.uuid, self.mtime)
-- 
2.43.0


From 6b60e3c36e8f9c37b9d825ca3b5c3948bb9edccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:36 +0000
Subject: [PATCH 09/30] fix: Entry.index and Entry.reindex count subgroups that
 lie between entries

---
 pykeepass/entry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 7f409ff..390f96c 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -133,11 +133,7 @@ class Entry(BaseElement):
     @property
     def index(self):
         """`int`: index of a entry within a group"""
-        group = self.group._element
-        children = group.getchildren()
-        first_index = self.group._first_entry
-        index = children.index(self._element)
-        return index - first_index
+        return self.group._element.findall('Entry').index(self._element)
 
     def reindex(self, new_index):
         """Move entry to a new index within a group
@@ -148,7 +144,13 @@ class Entry(BaseElement):
         group = self.group._element
         first_index = self.group._first_entry
         group.remove(self._element)
-        group.insert(new_index+first_index, self._element)
+        entries = group.findall('Entry')
+        if new_index < len(entries):
+            entries[new_index].addprevious(self._element)
+        elif entries:
+            entries[-1].addnext(self._element)
+        else:
+            group.insert(first_index, self._element)
 
     @property
     def attachments(self):
-- 
2.43.0


From 068461c7e2249d408c7e5b937d0adaa3e42fb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:15 +0000
Subject: [PATCH 10/30] fix: save() wrote in place for *.tmp targets, clobbered
 unrelated files with suffix .tmp, and hid why it failed

---
 pykeepass/pykeepass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 1b7214b..b20def8 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -166,7 +166,8 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            filename_tmp = Path(filename)
+            filename_tmp = filename_tmp.with_name(filename_tmp.name + '.tmp')
             try:
                 KDBX.build_file(
                     self.kdbx,
@@ -177,7 +178,8 @@ class PyKeePass:
                     decrypt=True
                 )
             except Exception as e:
-                os.remove(filename_tmp)
+                if os.path.exists(filename_tmp):
+                    os.remove(filename_tmp)
                 raise e
             shutil.move(filename_tmp, filename)
 
-- 
2.43.0


From 426568de94e0aeaf0595844b2b816f21ed01d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:15 +0000
Subject: [PATCH 11/30] fix: delete_binary left history entries pointing at
 other data, KDBX3 IDs unlike the references, and took negative IDs

---
 pykeepass/pykeepass.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b20def8..288c615 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -864,6 +864,8 @@ class PyKeePass:
             `IndexError`: raised when binary with given ID does not exist
         """
         try:
+            if id < 0:
+                raise IndexError
             if self.version >= (4, 0):
                 # remove binary element from inner header
                 self.payload.inner_header.binary.pop(id)
@@ -871,11 +873,13 @@ class PyKeePass:
                 # remove binary element from XML
                 binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
                 binaries.remove(binaries.getchildren()[id])
+                for i, binary in enumerate(binaries):
+                    binary.attrib['ID'] = str(i)
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From e7bda67237b27e982eced67ee239b39269158a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:15 +0000
Subject: [PATCH 12/30] fix: deref failed on references to an empty field or to
 a UUID

---
 pykeepass/pykeepass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 288c615..bcfc104 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -925,7 +925,10 @@ class PyKeePass:
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
+            replacement = getattr(ref_entry, wanted_field)
+            if wanted_field == 'uuid':
+                replacement = replacement.hex.upper()
+            value = value.replace(ref, replacement or '')
         return self.deref(value)
 
 
-- 
2.43.0


From 8d83412a4780273ff4d39b73cdbfd2a50db2fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:45 +0000
Subject: [PATCH 13/30] fix: KDBX4 times just below a full second were stored
 as the next one, and datetime.max as unreadable

---
 pykeepass/pykeepass.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index bcfc104..0ef5c31 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1016,17 +1016,15 @@ class PyKeePass:
         """`bytes` or `str`: Convert datetime to base64 or plaintext string"""
 
         if self.version >= (4, 0):
-            diff_seconds = int(
-                (
-                    value -
-                    datetime(
-                        year=1,
-                        month=1,
-                        day=1,
-                        tzinfo=timezone.utc
-                    )
-                ).total_seconds()
-            )
+            diff_seconds = (
+                value -
+                datetime(
+                    year=1,
+                    month=1,
+                    day=1,
+                    tzinfo=timezone.utc
+                )
+            ) // timedelta(seconds=1)
             return base64.b64encode(
                 struct.pack('<Q', diff_seconds)
             ).decode('utf-8')
-- 
2.43.0


From 76b7454a93d38483ce37a6670a5b2065410ec5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:53 +0000
Subject: [PATCH 14/30] fix: refuse unsupported major versions, which opened
 without content and were saved without it

---
 pykeepass/kdbx_parsing/kdbx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx.py b/pykeepass/kdbx_parsing/kdbx.py
index 935da4a..377e6da 100644
--- a/pykeepass/kdbx_parsing/kdbx.py
+++ b/pykeepass/kdbx_parsing/kdbx.py
@@ -1,4 +1,4 @@
-from construct import Bytes, Check, Int16ul, RawCopy, Struct, Switch, this
+from construct import Bytes, Check, Error, Int16ul, RawCopy, Struct, Switch, this
 
 from .kdbx3 import Body as Body3
 from .kdbx3 import DynamicHeader as DynamicHeader3
@@ -22,7 +22,8 @@ KDBX = Struct(
                 this.major_version,
                 {3: DynamicHeader3,
                  4: DynamicHeader4
-                 }
+                 },
+                default=Error
             )
         )
     ),
-- 
2.43.0


From 0051efc8dbdae998ac0191be9af8ed20cb47d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:43 +0000
Subject: [PATCH 15/30] fix: a rejected text no longer deletes the one it was
 meant to replace

---
 pykeepass/attachment.py  |  3 ++-
 pykeepass/baseelement.py | 11 +++++++++++
 pykeepass/entry.py       |  8 ++++----
 pykeepass/pykeepass.py   | 11 ++++++-----
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 8006e12..72834f8 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -1,4 +1,5 @@
 from . import entry
+from .baseelement import set_text
 from .exceptions import BinaryError
 
 
@@ -35,7 +36,7 @@ class Attachment:
 
     @filename.setter
     def filename(self, filename):
-        self._element.find('Key').text = filename
+        set_text(self._element.find('Key'), filename)
 
     @property
     def entry(self):
diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index edb08e4..8d23676 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -7,6 +7,17 @@ from lxml import etree
 from lxml.builder import E
 
 
+def set_text(element, value):
+    """Set text of an XML element.  If lxml rejects the value, the old text,
+    which it has removed by then, is put back"""
+    old = element.text
+    try:
+        element.text = value
+    except Exception:
+        element.text = old
+        raise
+
+
 class BaseElement:
     """Entry and Group inherit from this class"""
 
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 390f96c..a2a2528 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -6,7 +6,7 @@ from lxml.etree import Element, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
-from .baseelement import BaseElement
+from .baseelement import BaseElement, set_text
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -294,7 +294,7 @@ class Entry(BaseElement):
     def autotype_enabled(self, value):
         enabled = self._element.find('AutoType/Enabled')
         if value is not None:
-            enabled.text = str(value)
+            set_text(enabled, str(value))
         else:
             enabled.text = None
 
@@ -308,7 +308,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -320,7 +320,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 0ef5c31..8e371ca 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -16,6 +16,7 @@ from lxml import etree
 from lxml.builder import E
 
 from .attachment import Attachment
+from .baseelement import set_text
 from .entry import Entry
 from .exceptions import (
     BinaryError,
@@ -278,7 +279,7 @@ class PyKeePass:
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def database_description(self):
@@ -289,7 +290,7 @@ class PyKeePass:
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def default_username(self):
@@ -300,7 +301,7 @@ class PyKeePass:
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
@@ -972,13 +973,13 @@ class PyKeePass:
     def credchange_required_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeForce'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeRec'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @property
     def credchange_date(self):
-- 
2.43.0


From 46b6e26bd6bf51d91d25f91986ccc04229b840ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:13 +0000
Subject: [PATCH 16/30] fix: a failed read() keeps file name and credentials of
 the open database

---
 pykeepass/pykeepass.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 8e371ca..72f7a7d 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -88,11 +88,7 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
@@ -136,6 +132,12 @@ class PyKeePass:
             else:
                 raise
 
+        # after the database was read, since a failed attempt should not
+        # change where and how the current one is saved
+        self.filename = filename
+        self._password = password
+        self._keyfile = keyfile
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 3e1a3583db43aee3a4fb53193f4f09156220345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 17/30] fix: a database opened with a transformed key is saved
 and reloaded with it, not without credentials

---
 pykeepass/pykeepass.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 72f7a7d..6099639 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -137,11 +137,23 @@ class PyKeePass:
         self.filename = filename
         self._password = password
         self._keyfile = keyfile
+        self._transformed_key = transformed_key
+
+    def _given_transformed_key(self):
+        """Transformed key the database was opened with, if there are no other
+        credentials"""
+        if self.password is None and self.keyfile is None:
+            return self._transformed_key
 
     def reload(self):
         """Reload current database using previously given credentials """
 
-        self.read(self.filename, self.password, self.keyfile)
+        self.read(
+            self.filename,
+            self.password,
+            self.keyfile,
+            self._given_transformed_key()
+        )
 
     def save(self, filename=None, transformed_key=None):
         """Save current database object to disk.
@@ -156,6 +168,8 @@ class PyKeePass:
 
         if not filename:
             filename = self.filename
+        if transformed_key is None:
+            transformed_key = self._given_transformed_key()
 
         if hasattr(filename, "write"):
             KDBX.build_stream(
@@ -1080,6 +1094,7 @@ def create_database(
     keepass_instance.filename = filename
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
+    keepass_instance._transformed_key = transformed_key
 
     keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
-- 
2.43.0


From dd17515ef49ecf345d5adb44dddf543686e07347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:10 +0000
Subject: [PATCH 18/30] fix: attachments of a history entry are listed

---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index a2a2528..9b80a3e 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -159,7 +159,9 @@ class Entry(BaseElement):
             element=self,
             filename='.*',
             regex=True,
-            recursive=False
+            recursive=False,
+            # the entry itself may be a history entry
+            history=True
         )
 
     def add_attachment(self, id, filename):
-- 
2.43.0


From 70b88ebac3853d0e3cb106b9c0a2d0f9f2279bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:10 +0000
Subject: [PATCH 19/30] fix: a deleted or new group, and what lies in it, has a
 path and can be printed

---
 pykeepass/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/group.py b/pykeepass/group.py
index 46adb7e..2b604dc 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -71,7 +71,8 @@ class Group(BaseElement):
     @property
     def is_root_group(self):
         """`bool`: return True if this is the database root"""
-        return self._element.getparent().tag == 'Root'
+        parent = self._element.getparent()
+        return parent is not None and parent.tag == 'Root'
 
     @property
     def path(self):
-- 
2.43.0


From 6fa52bfb935e8942e578b4900098b54a6d965e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:10 +0000
Subject: [PATCH 20/30] fix: an entry outside of any group can be printed

---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 9b80a3e..cf73d0e 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -447,7 +447,9 @@ class Entry(BaseElement):
 
     def __str__(self):
         # filter out NoneTypes and join into string
-        pathstr = '/'.join('' if p is None else p for p in self.path)
+        # an entry outside of any group has no path
+        path = [self.title] if self.path is None else self.path
+        pathstr = '/'.join('' if p is None else p for p in path)
         return 'Entry: "{} ({})"'.format(pathstr, self.username)
 
 
-- 
2.43.0


From 17a21eb6a088b6a0eb51312f3c488825824e56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 21/30] fix: protected binaries of KDBX3 files take part in the
 inner stream

---
 pykeepass/kdbx_parsing/common.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 43e0ae9..9d72c1e 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -207,7 +207,8 @@ class UnprotectedStream(Adapter):
     Iterate etree for Protected elements and decrypt using cipher
     provided by get_cipher"""
 
-    protected_xpath = '//Value[@Protected=\'True\']'
+    # KDBX3 keeps binaries in the XML, and those may be protected too
+    protected_xpath = '//Value[@Protected=\'True\']|//Binaries/Binary[@Protected=\'True\']'
 
     def __init__(self, protected_stream_key, subcon):
         super().__init__(subcon)
@@ -218,7 +219,11 @@ class UnprotectedStream(Adapter):
         for elem in tree.xpath(self.protected_xpath):
             if elem.text is not None:
                 try:
-                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
+                    result = cipher.decrypt(base64.b64decode(elem.text))
+                    if elem.tag == 'Binary':
+                        elem.text = base64.b64encode(result)
+                        continue
+                    result = result.decode('utf-8')
                     # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                     result = re.sub(
                         '[^\u0020-\uD7FF\u0009\u000A\u000D\uE000-\uFFFD\U00010000-\U0010FFFF]+',
@@ -238,11 +243,11 @@ class UnprotectedStream(Adapter):
         cipher = self.get_cipher(self.protected_stream_key(con))
         for elem in tree_copy.xpath(self.protected_xpath):
             if elem.text is not None:
-                elem.text = base64.b64encode(
-                    cipher.encrypt(
-                        elem.text.encode('utf-8')
-                    )
-                )
+                if elem.tag == 'Binary':
+                    data = base64.b64decode(elem.text)
+                else:
+                    data = elem.text.encode('utf-8')
+                elem.text = base64.b64encode(cipher.encrypt(data))
         return tree_copy
 
 
-- 
2.43.0


From be6840ee3c551d58030ab06d81e63c704b356149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 22/30] fix: binaries of KDBX3 files are told apart by their
 IDs, not by their order

---
 pykeepass/pykeepass.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 6099639..48de9e6 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -818,7 +818,10 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                # elements are not necessarily in the order of their IDs
+                binary_id = int(elem.attrib['ID'])
+                binaries += [b''] * (binary_id + 1 - len(binaries))
+                binaries[binary_id] = data
 
         return binaries
 
@@ -889,9 +892,13 @@ class PyKeePass:
             else:
                 # remove binary element from XML
                 binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
-                for i, binary in enumerate(binaries):
-                    binary.attrib['ID'] = str(i)
+                elements = {int(e.attrib['ID']): e for e in binaries}
+                if id not in elements:
+                    raise IndexError
+                binaries.remove(elements.pop(id))
+                for i, elem in elements.items():
+                    if i > id:
+                        elem.attrib['ID'] = str(i - 1)
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
-- 
2.43.0


From d117f871975abf8d435288af1fc17c51306887cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 23/30] fix: autotype properties of entries without AutoType
 elements

---
 pykeepass/entry.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index cf73d0e..cb9bb8c 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -285,20 +285,33 @@ class Entry(BaseElement):
     def history(self, value):
         raise NotImplementedError()
 
+    def _set_autotype(self, path, value):
+        """Set text of an element below AutoType.  Other programs leave out those
+        that are not in use, so it may have to be created"""
+        element = self._element.find('AutoType/' + path)
+        if element is not None:
+            set_text(element, value)
+            return
+        *parents, tag = ('AutoType/' + path).split('/')
+        element = Element(tag)
+        element.text = value
+        parent = self._element
+        for name in parents:
+            if parent.find(name) is None:
+                parent.append(Element(name))
+            parent = parent.find(name)
+        parent.append(element)
+
     @property
     def autotype_enabled(self):
         """bool: get or set autotype enabled state.  Determines whether `autotype_sequence` should be used"""
         enabled = self._element.find('AutoType/Enabled')
-        if enabled.text is not None:
+        if enabled is not None and enabled.text is not None:
             return enabled.text == 'True'
 
     @autotype_enabled.setter
     def autotype_enabled(self, value):
-        enabled = self._element.find('AutoType/Enabled')
-        if value is not None:
-            set_text(enabled, str(value))
-        else:
-            enabled.text = None
+        self._set_autotype('Enabled', str(value) if value is not None else None)
 
     @property
     def autotype_sequence(self):
@@ -310,7 +323,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        set_text(self._element.find('AutoType/DefaultSequence'), value)
+        self._set_autotype('DefaultSequence', value)
 
     @property
     def autotype_window(self):
@@ -322,7 +335,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        set_text(self._element.find('AutoType/Association/Window'), value)
+        self._set_autotype('Association/Window', value)
 
     @property
     def is_a_history_entry(self):
-- 
2.43.0


From b291c832b51330afa67a77b218ed8fc072772593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 24/30] fix: items without Times, Expires or ExpiryTime do not
 expire

---
 pykeepass/baseelement.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 8d23676..3c92d4d 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -116,10 +116,9 @@ class BaseElement:
 
     @property
     def expires(self):
-        times = self._element.find('Times')
-        d = times.find('Expires').text
-        if d is not None:
-            return d == 'True'
+        d = self._element.find('Times/Expires')
+        if d is not None and d.text is not None:
+            return d.text == 'True'
 
     @expires.setter
     def expires(self, value):
@@ -128,7 +127,7 @@ class BaseElement:
 
     @property
     def expired(self):
-        if self.expires:
+        if self.expires and self.expiry_time is not None:
             return (
                 datetime.now(timezone.utc) >
                 self.expiry_time
-- 
2.43.0


From a91ad72c36c702c9fb303097ad02b4c3c60c4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:52 +0000
Subject: [PATCH 25/30] fix: deleting the whole history of an entry that has
 none does nothing

---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index cb9bb8c..49f32d4 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -454,7 +454,9 @@ class Entry(BaseElement):
         """
 
         if all:
-            self._element.remove(self._element.find('History'))
+            history = self._element.find('History')
+            if history is not None:
+                self._element.remove(history)
         else:
             self._element.find('History').remove(history_entry._element)
 
-- 
2.43.0


From 0e4cc1a27493fe1bb78c1f0530f33d0aa0655e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:52 +0000
Subject: [PATCH 26/30] fix: setting times and expiry of items which lack the
 elements

---
 pykeepass/baseelement.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 3c92d4d..94f3c6d 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -107,12 +107,19 @@ class BaseElement:
             if prop is not None and prop.text is not None:
                 return self._kp._decode_time(prop.text)
 
-    def _set_times_property(self, prop, value):
+    def _set_times_text(self, tag, text):
         times = self._element.find('Times')
-        if times is not None:
-            prop = times.find(prop)
-            if prop is not None:
-                prop.text = self._kp._encode_time(value)
+        if times is None:
+            times = E.Times()
+            self._element.append(times)
+        elem = times.find(tag)
+        if elem is None:
+            elem = getattr(E, tag)()
+            times.append(elem)
+        elem.text = text
+
+    def _set_times_property(self, prop, value):
+        self._set_times_text(prop, self._kp._encode_time(value))
 
     @property
     def expires(self):
@@ -122,8 +129,7 @@ class BaseElement:
 
     @expires.setter
     def expires(self, value):
-        d = self._element.find('Times').find('Expires')
-        d.text = 'True' if value else 'False'
+        self._set_times_text('Expires', 'True' if value else 'False')
 
     @property
     def expired(self):
-- 
2.43.0


From 9f533a9c05cdc7f463a5aa04e293d855b08c96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:05 +0000
Subject: [PATCH 27/30] fix: a reference with a malformed UUID refers to
 nothing

---
 pykeepass/pykeepass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 48de9e6..2e67afb 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -945,7 +945,10 @@ class PyKeePass:
             wanted_field = field_to_attribute[wanted_field]
             search_in = field_to_attribute[search_in]
             if search_in == 'uuid':
-                search_value = uuid.UUID(search_value)
+                try:
+                    search_value = uuid.UUID(search_value)
+                except ValueError:
+                    return None
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-- 
2.43.0


From 764509a28a4e2f6bf155a14998ee56916bc98153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:05 +0000
Subject: [PATCH 28/30] fix: database settings which a database lacks can be
 read and set

---
 pykeepass/pykeepass.py | 47 ++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 2e67afb..0216aa9 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -286,38 +286,46 @@ class PyKeePass:
         excluding history"""
         return self.find_entries()
 
+    def _get_meta(self, tag):
+        """Get text of a database setting, None if the database lacks it"""
+        elem = self._xpath('/KeePassFile/Meta/' + tag, first=True)
+        if elem is not None:
+            return elem.text
+
+    def _set_meta(self, tag, text):
+        """Set text of a database setting, which is created if the database lacks it"""
+        elem = self._xpath('/KeePassFile/Meta/' + tag, first=True)
+        if elem is not None:
+            set_text(elem, text)
+        else:
+            self._xpath('/KeePassFile/Meta', first=True).append(getattr(E, tag)(text))
+
     @property
     def database_name(self):
         """`str`: Name of database"""
-        elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        return elem.text
+        return self._get_meta('DatabaseName')
 
     @database_name.setter
     def database_name(self, name):
-        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        set_text(item, str(name))
+        self._set_meta('DatabaseName', str(name))
 
     @property
     def database_description(self):
         """`str`: Description of the database"""
-        elem = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        return elem.text
+        return self._get_meta('DatabaseDescription')
 
     @database_description.setter
     def database_description(self, name):
-        item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        set_text(item, str(name))
+        self._set_meta('DatabaseDescription', str(name))
 
     @property
     def default_username(self):
         """`str` or `None`: default user.  `None` if not set"""
-        elem = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        return elem.text
+        return self._get_meta('DefaultUserName')
 
     @default_username.setter
     def default_username(self, name):
-        item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        set_text(item, str(name))
+        self._set_meta('DefaultUserName', str(name))
 
     def xml(self):
         """Get XML part of database as string
@@ -997,15 +1005,11 @@ class PyKeePass:
 
     @credchange_required_days.setter
     def credchange_required_days(self, days):
-        path = '/KeePassFile/Meta/MasterKeyChangeForce'
-        item = self._xpath(path, first=True)
-        set_text(item, str(days))
+        self._set_meta('MasterKeyChangeForce', str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
-        path = '/KeePassFile/Meta/MasterKeyChangeRec'
-        item = self._xpath(path, first=True)
-        set_text(item, str(days))
+        self._set_meta('MasterKeyChangeRec', str(days))
 
     @property
     def credchange_date(self):
@@ -1016,14 +1020,13 @@ class PyKeePass:
 
     @credchange_date.setter
     def credchange_date(self, date):
-        mk_time = self._xpath('/KeePassFile/Meta/MasterKeyChanged', first=True)
-        mk_time.text = self._encode_time(date)
+        self._set_meta('MasterKeyChanged', self._encode_time(date))
 
     @property
     def credchange_required(self):
         """`bool`: Check if credential change is required"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_required_days == -1:
+        if change_date is None or self.credchange_required_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_required_days
@@ -1032,7 +1035,7 @@ class PyKeePass:
     def credchange_recommended(self):
         """`bool`: Check if credential change is recommended"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_recommended_days == -1:
+        if change_date is None or self.credchange_recommended_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_recommended_days
-- 
2.43.0


From 684cdfeb01ce7c34f80d4fd8e9aed17958e2d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:05 +0000
Subject: [PATCH 29/30] fix: string, uuid and tags given as None or empty do
 not restrict searches

---
 pykeepass/pykeepass.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 0216aa9..5c3ee50 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -443,6 +443,11 @@ class PyKeePass:
 
             xp += prefix
 
+            # nothing given means no restriction, as with other arguments
+            for key in ('string', 'uuid', 'tags'):
+                if not kwargs.get(key):
+                    kwargs.pop(key, None)
+
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-- 
2.43.0


From 1ab1ce350278b01fe9bbbe1a12df660ff6ba574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:05 +0000
Subject: [PATCH 30/30] fix: databases whose recycle bin id is missing or empty

---
 pykeepass/pykeepass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5c3ee50..a92dc4e 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -271,6 +271,8 @@ class PyKeePass:
     def recyclebin_group(self):
         """`Group`: RecycleBin Group of database"""
         elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
+        if elem is None or not elem.text:
+            return None
         recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )
         return self.find_groups(uuid=recyclebin_uuid, first=True)
 
@@ -586,8 +588,7 @@ class PyKeePass:
             return existing_group
         kwargs.setdefault('group_name', 'Recycle Bin')
         group = self.add_group( self.root_group, **kwargs)
-        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
-        elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')
+        self._set_meta('RecycleBinUUID', base64.b64encode(group.uuid.bytes).decode('utf-8'))
         return group
 
     def trash_group(self, group):
-- 
2.43.0

