From e5c9f6c85ae9b8c468604c57331643ae6cfef2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 01/31] fix: use builtin object dtype in mat backend (np.object
 no longer exists)

---
 dsch/backends/mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..a1dcaf1 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -104,7 +104,7 @@ class List(npz.List):
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From 42fd7f2e3444fe45e93ce532ddbee76a63b927eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 02/31] fix: treat a length or shape bound of zero as a bound
 in schema validation

---
 dsch/schema.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..cb58a5b 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -257,12 +257,12 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
             for nominal, actual in zip(self.min_shape, test_data.shape):
-                if nominal and actual < nominal:
+                if nominal is not None and actual < nominal:
                     raise ValidationError('Minimum array shape undercut.',
                                           self.min_shape, test_data.shape)
         if self.max_value is not None and np.any(test_data > self.max_value):
@@ -337,10 +337,10 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
-        if self.min_length and len(test_data) < self.min_length:
+        if self.min_length is not None and len(test_data) < self.min_length:
             raise ValidationError('Minimum bytes length undercut.',
                                   self.min_length, len(test_data))
 
@@ -657,10 +657,10 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
-        if self.min_length and len(test_data) < self.min_length:
+        if self.min_length is not None and len(test_data) < self.min_length:
             raise ValidationError('Minimum list length undercut.',
                                   self.min_length, len(test_data))
 
@@ -815,10 +815,10 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
-        if self.min_length and len(test_data) < self.min_length:
+        if self.min_length is not None and len(test_data) < self.min_length:
             raise ValidationError('Minimum string length undercut.',
                                   self.min_length, len(test_data))
 
-- 
2.43.0


From 1950f9a2a82414563c94848dc4d49277d312f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 03/31] fix: compare schema nodes by their serialised form so a
 reloaded schema equals its original

---
 dsch/schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index cb58a5b..b0415a2 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -49,10 +49,12 @@ class SchemaNode:
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
         try:
-            other_dict = other.to_dict()
+            other_json = other.to_json()
         except AttributeError:
             return False
-        return self.to_dict() == other_dict
+        # Compare the JSON form, since it does not differ between tuples and
+        # lists, so that a node equals its own copy loaded from JSON.
+        return self.to_json() == other_json
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 8718f087b6243e884fd502076d8685c1cabd9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 04/31] fix: serialise schemas whose dtype is given as a
 numpy.dtype

---
 dsch/schema.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index b0415a2..641ff7d 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -213,7 +213,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -727,7 +727,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -911,3 +911,20 @@ def node_from_json(json_str):
         New schema node with the specified type and configuration.
     """
     return node_from_dict(json.loads(json_str))
+
+
+def _dtype_name(dtype):
+    """Return the serialisable name of a NumPy dtype.
+
+    Names that are already given as a string are returned unchanged.
+
+    Args:
+        dtype (numpy.dtype or str): NumPy dtype or anything that can be
+            converted to one.
+
+    Returns:
+        str: Name of the dtype.
+    """
+    if isinstance(dtype, str):
+        return dtype
+    return str(np.dtype(dtype))
-- 
2.43.0


From 8a374d16af98784b27441e7460264481a9fa90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 05/31] fix: raise AttributeError instead of KeyError for
 unknown compilation fields

---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..ef210c5 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -446,7 +446,10 @@ class Compilation:
 
         This returns the entire sub-node object, not just the node value.
         """
-        return self._subnodes[attr_name]
+        try:
+            return self._subnodes[attr_name]
+        except KeyError:
+            raise AttributeError(attr_name) from None
 
     def _init_from_storage(self, data_storage):
         """Initialize Compilation from the given data storage object.
-- 
2.43.0


From ff513a8ecaca53d47b7136cbfa8659a803497cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 06/31] fix: do not constrain array dimensions without a
 (filled) independent variable

---
 dsch/data.py   | 10 +++++++---
 dsch/schema.py |  5 ++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index ef210c5..b5c2e7d 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -311,9 +311,13 @@ class Array(ItemNode):
         independent_values = []
         node_names = self.schema_node.depends_on or []
         for node_name in node_names:
-            if node_name:
-                independent_values.append(getattr(self.parent, node_name)
-                                          .value)
+            node = getattr(self.parent, node_name) if node_name else None
+            if node is None or node.empty:
+                # Dimensions without an independent variable (or with one that
+                # is not filled yet) are not constrained.
+                independent_values.append(None)
+            else:
+                independent_values.append(node.value)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index 641ff7d..7ce5687 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -243,7 +243,8 @@ class Array(SchemaNode):
 
         Args:
             test_data: Data to be validated.
-            independent_values: Values of the independent variables.
+            independent_values: Values of the independent variables. A value
+                of ``None`` leaves the corresponding dimension unconstrained.
 
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
@@ -278,6 +279,8 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From 173c1d0d3b79df7df336f6bbe9aa799ea7c20aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 07/31] fix: report an unusable independent variable as a
 validation error

---
 dsch/data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index b5c2e7d..f77fbb9 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -15,6 +15,7 @@ import datetime
 import importlib
 
 import asciitree
+import numpy as np
 
 from . import exceptions
 
@@ -316,8 +317,13 @@ class Array(ItemNode):
                 # Dimensions without an independent variable (or with one that
                 # is not filled yet) are not constrained.
                 independent_values.append(None)
-            else:
-                independent_values.append(node.value)
+                continue
+            value = node.value
+            if not isinstance(value, np.ndarray) or value.ndim > 1:
+                raise exceptions.ValidationError(
+                    'Independent variable must be a one-dimensional array.',
+                    node_name, type(value))
+            independent_values.append(value)
         self.schema_node.validate(self.value, independent_values)
 
 
-- 
2.43.0


From 941ce762a02161d5cb901d82c7175f42340af6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 08/31] fix: copy empty nodes as empty instead of raising
 NodeEmptyError

---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index f77fbb9..adc7224 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -160,7 +160,10 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            self.replace(source_node.value)
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 81826c73095a5c71d5f4caa9e353fbaa03d4b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 09/31] fix: remove previous list items when loading a list
 from another node

---
 dsch/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index adc7224..ea17cf0 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -802,7 +802,8 @@ class List:
     def load_from(self, source_node):
         """Load data by copying from the given source node.
 
-        For Lists, this copies the relevant subnode's data recursively.
+        For Lists, this copies the relevant subnode's data recursively. Items
+        that were previously present in this List are removed.
 
         Args:
             source_node: Data node to copy value from.
@@ -810,6 +811,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            return
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From c310eb55983021cf2e8c6c8b005bf2abec5c0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 10/31] fix: do not share array data between a copied node and
 its source

---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index ea17cf0..c1fa4ea 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -163,7 +164,9 @@ class ItemNode:
         if source_node.empty:
             self.clear()
         else:
-            self.replace(source_node.value)
+            # Copy the value, so that later in-place changes (e.g. of array
+            # elements) to one of the nodes do not affect the other.
+            self.replace(copy.deepcopy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 454af79181222225b1cc18b7eef630682153ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 11/31] fix: do not re-initialize cleared set_on_create fields
 when loading

---
 dsch/backends/hdf5.py | 4 ++++
 dsch/backends/mat.py  | 6 ++++++
 dsch/backends/npz.py  | 3 +++
 dsch/data.py          | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..6e60d76 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -190,6 +190,8 @@ class Compilation(data.Compilation):
                 new_params_sub = {'name': node_name, 'parent': data_storage}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
+                # Undo any automatic initialization of stored empty fields.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -384,6 +386,8 @@ class Storage(storage.FileStorage):
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
+                # Undo any automatic initialization of a stored empty node.
+                self.data.clear()
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index a1dcaf1..eb7fb0c 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -55,6 +55,9 @@ class Compilation(npz.Compilation):
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Undo any automatic initialization of stored empty fields.
+                self._subnodes[node_name].clear()
 
 
 class Date(npz.Date):
@@ -135,6 +138,9 @@ class Storage(npz.Storage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Undo any automatic initialization of a stored empty node.
+            self.data.clear()
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..6f4cf80 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -248,6 +248,9 @@ class Storage(storage.FileStorage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Undo any automatic initialization of a stored empty node.
+            self.data.clear()
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index c1fa4ea..ef2f846 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -486,6 +486,10 @@ class Compilation:
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # The field was empty when it was stored, so undo any automatic
+                # initialization (see e.g. :attr:`.schema.Date.set_on_create`).
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
-- 
2.43.0


From 321f61ea58b4213e92d2ff2a5ac859c1af126f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 12/31] fix: keep array elements in place when resizing arrays
 that are held in memory

---
 dsch/backends/hdf5.py |  8 ++++++++
 dsch/data.py          | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 6e60d76..c7114fc 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -104,6 +104,14 @@ class Array(data.Array, _ItemNode):
             maxshape=maxshape,
         )
 
+    def resize(self, size):
+        """Resize the array to the desired size.
+
+        Args:
+            size (tuple): Desired array size.
+        """
+        self._storage.resize(size)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/data.py b/dsch/data.py
index ef2f846..8abd887 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -295,10 +295,22 @@ class Array(ItemNode):
     def resize(self, size):
         """Resize the array to the desired size.
 
+        All elements inside both the old and the new size keep their value and
+        index. Newly created elements are set to zero. The number of dimensions
+        cannot be changed.
+
         Args:
             size (tuple): Desired array size.
         """
-        self._storage.resize(size)
+        if np.ndim(size) == 0:
+            size = (size,)
+        if len(size) != self._storage.ndim:
+            raise ValueError('Cannot change the number of array dimensions.')
+        resized = np.zeros(size, dtype=self._storage.dtype)
+        overlap = tuple(slice(min(old, new)) for old, new
+                        in zip(self._storage.shape, resized.shape))
+        resized[overlap] = self._storage[overlap]
+        self._storage = resized
 
     def __setitem__(self, key, value):
         """Pass slicing/indexing operations directly to NumPy array."""
-- 
2.43.0


From b7d3a32feca07962bda8835d0dc5fa2078c34d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 13/31] fix: leave a PseudoStorage closed when opening it fails
 the schema check

---
 dsch/frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..239de3d 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,8 +255,9 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
+                self.storage = storage
             else:
                 self.storage = create(self._data_storage,
                                       schema_node=self._schema_node)
-- 
2.43.0


From d07be0f703c6d20587c47acf0cde1894cbd2ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 14/31] fix: keep the previous value when assigning to an HDF5
 node fails

---
 dsch/backends/hdf5.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index c7114fc..e903199 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -67,9 +67,21 @@ class _ItemNode(data.ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        self._replace_dataset(data=new_value)
+
+    def _replace_dataset(self, **kwargs):
+        """Replace the HDF5 dataset of this node by a new one.
+
+        The new dataset is completely written before the previous one (if any)
+        is removed, so that the previous value is kept in case of failure.
+
+        Args:
+            kwargs: Arguments for :meth:`h5py.Group.create_dataset`.
+        """
+        new_dataset = self._parent.create_dataset(None, **kwargs)
         self.clear()
-        self._storage = self._parent.create_dataset(self._dataset_name,
-                                                    data=new_value)
+        self._parent[self._dataset_name] = new_dataset
+        self._storage = self._parent[self._dataset_name]
 
 
 class Array(data.Array, _ItemNode):
@@ -85,8 +97,6 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-
         if self.schema_node.max_shape:
             if self.schema_node.max_shape == self.schema_node.min_shape:
                 # For equal shape constraints, disable resizing entirely.
@@ -97,8 +107,7 @@ class Array(data.Array, _ItemNode):
             # Make all dimensions arbitrarily resizable by default.
             maxshape = (None,) * self.schema_node.ndim
 
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
             maxshape=maxshape,
@@ -348,9 +357,7 @@ class Scalar(data.Scalar, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
         )
-- 
2.43.0


From db5604329e90cfa0268d5d93b2d08858fc41096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 15/31] fix: store byte strings of any length in HDF5 nodes,
 including after a previous value

---
 dsch/backends/hdf5.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index e903199..6bb54a9 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -143,11 +143,13 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
+        # The dataset is always replaced, since its data type depends on the
+        # length of the value.
+        if isinstance(new_value, bytes) and not new_value:
+            # np.void cannot represent empty values.
+            self._replace_dataset(shape=(0,), dtype='V1')
         else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+            self._replace_dataset(data=np.void(new_value))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From d5ef06e4f22f6189fd8359a4fc9f49d2e2b0eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 16/31] fix: reject unsuitable first values of HDF5 String and
 Bool nodes instead of making them unusable

---
 dsch/backends/hdf5.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 6bb54a9..9be2268 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -176,8 +176,7 @@ class Bool(_ItemNode):
         if self._storage:
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._replace_dataset(shape=(), dtype=bool, data=new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
@@ -445,8 +444,8 @@ class String(_ItemNode):
         if self._storage:
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._replace_dataset(data=np.asarray(new_value, dtype=object),
+                                  shape=(), dtype=h5py.string_dtype())
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From bdcb01a4876a7184575af7142511cc0e6d5f881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 17/31] fix: support zero-dimensional arrays in the HDF5
 backend

---
 dsch/backends/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 9be2268..cef28fa 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -105,7 +105,8 @@ class Array(data.Array, _ItemNode):
                 maxshape = self.schema_node.max_shape
         else:
             # Make all dimensions arbitrarily resizable by default.
-            maxshape = (None,) * self.schema_node.ndim
+            # Zero-dimensional arrays cannot be resized at all.
+            maxshape = (None,) * self.schema_node.ndim or None
 
         self._replace_dataset(
             data=new_value,
@@ -127,7 +128,8 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        return self._storage[()]
+        # h5py returns a NumPy scalar instead of a zero-dimensional array.
+        return np.asarray(self._storage[()])
 
 
 class Bytes(_ItemNode):
-- 
2.43.0


From e1c4ce844bc9e705a33684b911a0549429d40b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 18/31] fix: keep the length of HDF5 lists with empty items

---
 dsch/backends/hdf5.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index cef28fa..8aadc27 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -314,6 +314,7 @@ class List(data.List):
                                              self.__module__, self,
                                              new_params=new_params)
         self._subnodes.append(subnode)
+        self._store_length()
         if value is not None:
             subnode.replace(value)
 
@@ -322,6 +323,7 @@ class List(data.List):
         for name in self._storage.keys():
             del self._storage[name]
         super().clear()
+        self._store_length()
 
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
@@ -332,8 +334,24 @@ class List(data.List):
             data_storage (h5py.Dataset): Data storage object to be
                 imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        # Empty items may not have a corresponding HDF5 object, so the number
+        # of objects is not necessarily the length of the List.
+        length = data_storage.attrs.get('dsch_length', len(data_storage))
+        for idx in range(length):
+            name = 'item_{}'.format(idx)
+            if name in data_storage:
+                subnode = data.data_node_from_schema(
+                    self.schema_node.subnode, self.__module__, self,
+                    data_storage=data_storage[name])
+            else:
+                new_params = {'name': name, 'parent': data_storage}
+                subnode = data.data_node_from_schema(
+                    self.schema_node.subnode, self.__module__, self,
+                    new_params=new_params)
+                # Undo any automatic initialization of stored empty items.
+                subnode.clear()
+            self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
@@ -346,6 +364,10 @@ class List(data.List):
         """
         self._storage = new_params['parent'].create_group(new_params['name'])
 
+    def _store_length(self):
+        """Store the current length of the List in the HDF5 group."""
+        self._storage.attrs.modify('dsch_length', len(self))
+
 
 class Scalar(data.Scalar, _ItemNode):
     """Scalar-type data node for the HDF5 backend."""
-- 
2.43.0


From ff26a4d2a0e83f21014af4208d2c7b26c582ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 19/31] fix: keep length and order of npz and mat lists with
 empty items when saving

---
 dsch/backends/mat.py |  8 +++++++-
 dsch/backends/npz.py | 29 ++++++++++++++++++++++++-----
 dsch/data.py         | 10 +++++++---
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index eb7fb0c..3fc9f16 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -107,9 +107,15 @@ class List(npz.List):
         Returns:
             dict: Data storage object with the node's data.
         """
+        if not self._subnodes:
+            return None
         data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
-            data_storage[idx] = node.save()
+            node_storage = node.save()
+            if npz._is_blank(node_storage):
+                # Represent items without any data by empty cells.
+                node_storage = np.zeros((0,), dtype=object)
+            data_storage[idx] = node_storage
         return data_storage
 
 
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 6f4cf80..db68cf5 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -109,9 +109,10 @@ class Compilation(data.Compilation):
             dict: Data storage object with the node's data.
         """
         data_storage = {}
-        for name, node in [(na, no) for na, no in self._subnodes.items()
-                           if not no.empty]:
-            data_storage[name] = node.save()
+        for name, node in self._subnodes.items():
+            node_storage = node.save()
+            if not _is_blank(node_storage):
+                data_storage[name] = node_storage
         return data_storage
 
 
@@ -175,14 +176,19 @@ class List(data.List):
 
         For :class:`List`, data is represented as a :class:`dict` containing
         the sub-node's data storage objects as values and keys of the form
-        ``item_X``, where ``X`` is the list index.
+        ``item_X``, where ``X`` is the list index. Items without any data are
+        omitted. In that case, the number of items is included as ``length``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            node_storage = node.save()
+            if not _is_blank(node_storage):
+                data_storage['item_{}'.format(idx)] = node_storage
+        if len(data_storage) < len(self._subnodes):
+            data_storage['length'] = np.array(len(self._subnodes))
         return data_storage
 
 
@@ -323,6 +329,19 @@ class Time(data.Time, _ItemNode):
         return datetime.time(*self._storage.tolist())
 
 
+def _is_blank(data_storage):
+    """Check whether a data storage object does not contain any data.
+
+    Args:
+        data_storage: Data storage object, as returned by a node's ``save``.
+
+    Returns:
+        bool: ``True`` if there is nothing to be stored.
+    """
+    return data_storage is None or (isinstance(data_storage, dict)
+                                    and not data_storage)
+
+
 def _inflate_dotted(input_dict):
     """Convert flat dict with dotted key notation into nested dict.
 
diff --git a/dsch/data.py b/dsch/data.py
index 8abd887..b3f95b9 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -794,17 +794,21 @@ class List:
 
         The default implementation expects a dict, where keys are of the form
         "item_X", with X the list index, and values are the corresponding data
-        storage objects. Backend-specific subclasses may change this, if
+        storage objects. If empty items are omitted, the number of items must
+        be given as "length". Backend-specific subclasses may change this, if
         required.
 
         Args:
             data_storage (dict): Backend-specific data storage object to load.
         """
-        for idx in range(len(data_storage)):
-            node_storage = data_storage['item_{}'.format(idx)]
+        for idx in range(int(data_storage.get('length', len(data_storage)))):
+            node_storage = data_storage.get('item_{}'.format(idx), None)
             subnode = data_node_from_schema(self.schema_node.subnode,
                                             self.__module__, self,
                                             data_storage=node_storage)
+            if node_storage is None:
+                # Undo any automatic initialization of stored empty items.
+                subnode.clear()
             self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
-- 
2.43.0


From 020a125fd5a3297fae08bf34c442e02a93bfe4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 20/31] fix: write npz files at exactly the given path and with
 any field names

---
 dsch/backends/npz.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index db68cf5..771cdb8 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -5,6 +5,7 @@ This backend provides support for NumPy's npz format. For details, see
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
 import datetime
+import zipfile
 
 import numpy as np
 
@@ -275,8 +276,13 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        store_data['_schema'] = self.schema_node.to_json()
+        # This is what numpy.savez() does, except that it changes paths without
+        # the extension '.npz' and does not support all field names.
+        with zipfile.ZipFile(self.storage_path, 'w') as file_:
+            for name, value in store_data.items():
+                with file_.open(name + '.npy', 'w', force_zip64=True) as entry:
+                    np.lib.format.write_array(entry, np.asanyarray(value))
 
 
 class String(_ItemNode):
-- 
2.43.0


From 5da1f9024e9446df2ed790e1604a44e0a64d3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 21/31] fix: keep empty byte strings in the npz and mat
 backends

---
 dsch/backends/npz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 771cdb8..8d4c67d 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -62,6 +62,10 @@ class Bytes(_ItemNode):
                 backend in use.
         """
         self._storage = np.array(new_value, dtype='bytes')
+        if isinstance(new_value, bytes) and not new_value:
+            # NumPy pads empty values to a single null byte, so use an array
+            # without any elements instead.
+            self._storage = np.zeros((0,), dtype='bytes')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From d25431226546b9482e5c0368321183fae09cd623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 22/31] fix: restore shapes, types, byte strings and list
 structure when loading mat files

---
 dsch/backends/mat.py | 134 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 107 insertions(+), 27 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 3fc9f16..73431ed 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -5,17 +5,81 @@ from . import npz
 from .. import data, schema
 
 
+class _ItemNode:
+    """Common functionality of data nodes that hold numeric vectors."""
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        The one-dimensional arrays used to represent the node value are stored
+        as matrices, since MATLAB only supports arrays with at least two
+        dimensions.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
+
+
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Since MATLAB only supports arrays with at least two dimensions, arrays
+        with less than two dimensions must be restored here. Also, the data
+        types ``bool`` and ``float16`` are restored, because they are loaded as
+        ``uint8`` and ``float64``, respectively.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if self.schema_node.ndim == 0 and data_storage.size == 1:
+            data_storage = data_storage.reshape(())
+        elif (self.schema_node.ndim == 1 and data_storage.ndim == 2
+              and (1 in data_storage.shape or data_storage.shape == (0, 0))):
+            data_storage = data_storage.ravel()
+
+        dtype = np.dtype(self.schema_node.dtype)
+        if (dtype, data_storage.dtype) in ((np.bool_, np.uint8),
+                                           (np.float16, np.float64)):
+            data_storage = data_storage.astype(dtype)
+        super()._init_from_storage(data_storage)
 
 
 class Bytes(npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
 
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
 
-class Bool(npz.Bool):
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if data_storage.dtype.kind == 'U':
+            # Written by previous versions, which stored bytes as text.
+            data_storage = np.char.encode(data_storage)
+        self.replace(data_storage.tobytes())
+
+    def save(self):
+        """Export the node data as a data storage object.
+
+        Since MATLAB does not distinguish between text and bytes, the data is
+        represented as an array of unsigned 8-bit integers.
+
+        Returns:
+            numpy.ndarray: Data storage object with the node's data.
+        """
+        if self._storage is None:
+            return None
+        return np.frombuffer(self._value(), dtype='uint8')
+
+
+class Bool(_ItemNode, npz.Bool):
     """Bool-type data node for the mat backend."""
     pass
 
@@ -37,19 +101,15 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # scipy.io.loadmat represents structs as matrices with a single element.
+        # Structs without any fields do not have a structured dtype.
+        data_storage = np.squeeze(data_storage)
+        field_names = data_storage.dtype.names or ()
 
         for node_name, subnode in self.schema_node.subnodes.items():
-            # Work around the fact that we cannot use
-            # data_storage.get(node_name) because data_storage is not a dict,
-            # but a numpy.ndarray.
-            try:
-                node_storage = data_storage[node_name]
-            except ValueError:
+            if node_name in field_names:
+                node_storage = data_storage[node_name][()]
+            else:
                 node_storage = None
 
             self._subnodes[node_name] = data.data_node_from_schema(
@@ -60,12 +120,12 @@ class Compilation(npz.Compilation):
                 self._subnodes[node_name].clear()
 
 
-class Date(npz.Date):
+class Date(_ItemNode, npz.Date):
     """Date-type data node for the mat backend."""
     pass
 
 
-class DateTime(npz.DateTime):
+class DateTime(_ItemNode, npz.DateTime):
     """DateTime-type data node for the mat backend."""
     pass
 
@@ -87,15 +147,16 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        for field in np.ravel(data_storage):
+            # Items without any data are represented by empty cells.
+            if field.dtype == object and field.size == 0:
+                field = None
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
+            if field is None:
+                # Undo any automatic initialization of stored empty items.
+                subnode.clear()
             self._subnodes.append(subnode)
 
     def save(self):
@@ -121,7 +182,17 @@ class List(npz.List):
 
 class Scalar(npz.Scalar):
     """Scalar-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if np.size(data_storage) == 1:
+            data_storage = np.ravel(data_storage)[0]
+        super()._init_from_storage(data_storage)
 
 
 class Storage(npz.Storage):
@@ -138,8 +209,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -159,9 +230,18 @@ class Storage(npz.Storage):
 
 class String(npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        # Empty strings are represented by arrays without any elements.
+        self.replace(data_storage.item() if data_storage.size else '')
 
 
-class Time(npz.Time):
+class Time(_ItemNode, npz.Time):
     """Time-type data node for the mat backend."""
     pass
-- 
2.43.0


From eccdf0ebda0e1b14791dd9cd951afad996bc2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 23/31] fix: write mat files at exactly the given path

---
 dsch/backends/mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 73431ed..d7e1d53 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -209,7 +209,7 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path)
+        file_ = sio.loadmat(self.storage_path, appendmat=False)
         self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
@@ -225,7 +225,7 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        sio.savemat(self.storage_path, store_data, appendmat=False)
 
 
 class String(npz.String):
-- 
2.43.0


From 40f1b1d7f0bfcd2befa7d528b4485b61ae72e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 24/31] fix: allow mat field names with more than 31 characters

---
 dsch/backends/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index d7e1d53..adb5e23 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -225,7 +225,8 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data, appendmat=False)
+        sio.savemat(self.storage_path, store_data, appendmat=False,
+                    long_field_names=True)
 
 
 class String(npz.String):
-- 
2.43.0


From 2da0f7868c71afad6178048a831a26d6747d6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 25/31] fix: do not share the memory of arrays loaded from mat
 files

---
 dsch/backends/mat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index adb5e23..ad592e8 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -47,7 +47,10 @@ class Array(npz.Array):
         if (dtype, data_storage.dtype) in ((np.bool_, np.uint8),
                                            (np.float16, np.float64)):
             data_storage = data_storage.astype(dtype)
-        super()._init_from_storage(data_storage)
+        # Small arrays returned by scipy.io.loadmat may share their memory with
+        # each other (and with bytes objects of the interpreter), so changing
+        # elements in place requires a copy.
+        super()._init_from_storage(data_storage.copy())
 
 
 class Bytes(npz.Bytes):
-- 
2.43.0


From e4a07b961c9d4bafa7de29b8e124dc83641ae316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 26/31] fix: reject values with several elements for npz and
 mat Bool nodes

---
 dsch/backends/npz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 8d4c67d..6ababbf 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -89,7 +89,9 @@ class Bool(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array([new_value], dtype='bool')
+        # Values with several elements are rejected (by reshape), since they
+        # could not be read again.
+        self._storage = np.array([new_value], dtype='bool').reshape((1,))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 8a4b7bb8a30ec3ced653707767e05d962e664b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 27/31] fix: schema nodes are unequal to schema classes instead
 of raising TypeError

---
 dsch/schema.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 7ce5687..c016660 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -48,13 +48,11 @@ class SchemaNode:
 
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
-        try:
-            other_json = other.to_json()
-        except AttributeError:
+        if not isinstance(other, SchemaNode):
             return False
         # Compare the JSON form, since it does not differ between tuples and
         # lists, so that a node equals its own copy loaded from JSON.
-        return self.to_json() == other_json
+        return self.to_json() == other.to_json()
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From cecdc05318bed1bd01c37e98c88fc73ca67d0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 28/31] fix: loading an empty file as HDF5 does not turn it
 into an HDF5 file

---
 dsch/backends/hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 8aadc27..e4a9936 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -411,6 +411,11 @@ class Storage(storage.FileStorage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
+        if not h5py.is_hdf5(self.storage_path):
+            # In contrast to other invalid files, an empty file would not be
+            # rejected, but turned into an HDF5 file.
+            raise OSError('File {} is not an HDF5 file.'.format(
+                self.storage_path))
         self._storage = h5py.File(self.storage_path, 'r+')
         self.schema_node = schema.node_from_json(
             self._storage.attrs['dsch_schema'])
-- 
2.43.0


From 6327465067ac94b4d319cf7936181d4a59aecafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 29/31] fix: HDF5 lists from files of previous versions keep
 their length when items are emptied

---
 dsch/backends/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index e4a9936..3b66847 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -352,6 +352,10 @@ class List(data.List):
                 # Undo any automatic initialization of stored empty items.
                 subnode.clear()
             self._subnodes.append(subnode)
+        if 'dsch_length' not in data_storage.attrs:
+            # Files by previous dsch versions do not include the length, so it
+            # must be kept before items can be changed to empty.
+            self._store_length()
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
-- 
2.43.0


From 0891b68126f72c830e247241f28aceb55acdefa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 30/31] fix: failed array element assignments keep all elements

---
 dsch/data.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index b3f95b9..621aa0b 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -313,8 +313,17 @@ class Array(ItemNode):
         self._storage = resized
 
     def __setitem__(self, key, value):
-        """Pass slicing/indexing operations directly to NumPy array."""
-        self._storage[key] = value
+        """Pass slicing/indexing operations directly to NumPy array.
+
+        If the assignment fails, all elements keep their previous values.
+        """
+        previous = np.array(self._storage[key])
+        try:
+            self._storage[key] = value
+        except Exception:
+            # NumPy may already have assigned some of the elements.
+            self._storage[key] = previous
+            raise
 
     def validate(self):
         """Validate the node value against the schema node specification.
-- 
2.43.0


From 1943b6f5c0282b58537755dbe4f38e7bfd5af1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 31/31] fix: write mat files of different storages one after
 another

All writers of scipy.io share a class-level buffer, so two threads saving
different mat storages at the same time could corrupt both files.
---
 dsch/backends/mat.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index ad592e8..e1f3a13 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -1,9 +1,13 @@
+import threading
+
 import numpy as np
 import scipy.io as sio
 
 from . import npz
 from .. import data, schema
 
+_savemat_lock = threading.Lock()
+
 
 class _ItemNode:
     """Common functionality of data nodes that hold numeric vectors."""
@@ -228,8 +232,11 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data, appendmat=False,
-                    long_field_names=True)
+        # All writers of scipy.io share a buffer, so files must not be written
+        # by several threads at the same time.
+        with _savemat_lock:
+            sio.savemat(self.storage_path, store_data, appendmat=False,
+                        long_field_names=True)
 
 
 class String(npz.String):
-- 
2.43.0

