From 50de2f5aef3d7a7424b361231fd1169d06019ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 01/28] fix: check __index__ on the C security proxy

The C proxy type did not define nb_index and so inherited the one of
zope.proxy's ProxyBase, which reaches the wrapped object without asking
the checker.  operator.index(), indexing, slicing, range(), hex() and the
like bypassed the security checks.  The pure-Python proxy has always
checked __index__.
---
 src/zope/security/_proxy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..0dc80df 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -71,6 +71,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -562,6 +563,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -722,6 +724,7 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -891,6 +894,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 782610f63a3bb8d141927bd520522a8997c64ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 02/28] fix: a permission of None forbids access in the C
 checker

As documented, and as in the Python reference implementation, a name
mapped to None is forbidden.  The C checker asked the interaction for
the permission None instead, so a permissive policy granted access.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..552a1c9 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -147,7 +147,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -230,7 +230,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From a6cbf7061b08ddb04d3f96c91aef59e8de5ecacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 03/28] fix: do not crash or leak on names in the C extensions

MAKE_STRING created a bytes object that nobody released, on every check
of an undeclared name, and dereferenced NULL for names that have no UTF-8
encoding (lone surrogates) and for a __name__ or __module__ that is not a
string.  Inspect and format the str objects directly instead.
---
 src/zope/security/_proxy.c                 | 18 ++++--------------
 src/zope/security/_zope_security_checker.c | 10 ++++------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 0dc80df..4e33e58 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -385,7 +382,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -394,22 +390,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 552a1c9..3b30a4c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GetLength(name) >= 2
+              && PyUnicode_ReadChar(name, 0) == '_'
+              && PyUnicode_ReadChar(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From 02c02aa26c2a40f5b8d7763929e8b370162eaab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 04/28] fix: next() on a C proxy of a non-iterator raises
 TypeError

PyIter_Next must only be called with iterators; for any other object whose
checker permits __next__ it called a NULL function pointer.
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 4e33e58..40e14a1 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -351,6 +351,12 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (!PyIter_Check(self->proxy.proxy_object))
+        {
+          PyErr_Format(PyExc_TypeError, "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From ef7478ed0323734a1713416529a075605fefee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:25 +0000
Subject: [PATCH 05/28] fix: deleting an item of a C checker raises TypeError

The mp_ass_subscript slot, which the C checker uses as a fast path for
check(), is called with NULL for "del checker[object]"; the NULL name was
dereferenced.
---
 src/zope/security/_zope_security_checker.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 3b30a4c..4d8a7f6 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -140,6 +140,14 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   int operator;
 
 /*         permission = self._permission_func(name) */
+  if (name == NULL)
+    {
+      /* "del checker[object]" ends up here, too. */
+      PyErr_SetString(PyExc_TypeError,
+                      "checkers do not support item deletion");
+      return -1;
+    }
+
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
 
-- 
2.43.0


From ec2bd8b7cdd005d65ff73667159a57cd177c9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:33 +0000
Subject: [PATCH 06/28] fix: keep the permission alive while the interaction is
 asked

The C checker used the permission, borrowed from the permission
dictionary, after calling the interaction, which may have removed it.
---
 src/zope/security/_zope_security_checker.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 4d8a7f6..7a5cc23 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -100,30 +100,40 @@ checkPermission(PyObject *permission, PyObject *object, PyObject *name)
       PyObject *interaction, *r;
       int i;
 
+      /* The permission is borrowed from a dictionary which the interaction
+         may change. */
+      Py_INCREF(permission);
+
 /*          if thread_local.interaction.checkPermission(permission, object): */
 /*                 return */
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
-        return -1;
+        goto denied;
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        goto denied;
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
       if (i < 0)
-        return -1;
+        goto denied;
       if (i)
-        return 0;
+        {
+          Py_DECREF(permission);
+          return 0;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
       if (r == NULL)
-        return -1;
+        goto denied;
       PyErr_SetObject(Unauthorized, r);
       Py_DECREF(r);
+
+ denied:
+      Py_DECREF(permission);
       return -1;
 }
 
-- 
2.43.0


From 83438d67444b4879b72e45e74073e596220d2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:05 +0000
Subject: [PATCH 07/28] fix: do not ask an object for its class to select its
 checker in C

The C selectChecker used PyObject_IsInstance to detect exceptions and
took an error, raised by the object's __class__, as a yes: the object was
returned without a proxy and with the error still set.  Look at the real
type, which also determines the checker.
---
 src/zope/security/_zope_security_checker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 7a5cc23..078aede 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -537,7 +537,7 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*         return None */
 
   if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+      && PyObject_TypeCheck(object, (PyTypeObject *)PyExc_Exception))
     {
       Py_INCREF(Py_None);
       return Py_None;
-- 
2.43.0


From 3f446b15d9e98e4d5c7db198a5895abaaaabccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 08/28] fix: let the C checker's proxy() choose checkers like
 ProxyFactory

A __Security_checker__ of None means that there is none, as in
ProxyFactory and the reference implementation, rather than a ValueError;
errors other than AttributeError raised while looking it up are no longer
swallowed; and instances of subclasses of the proxy type are recognised
as proxies instead of being wrapped again.
---
 src/zope/security/_zope_security_checker.c | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 078aede..6b48533 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -279,9 +279,9 @@ Checker_proxy(Checker *self, PyObject *value)
 {
   PyObject *checker, *r;
 
-/*        if type(value) is Proxy: */
+/*        if isinstance(value, Proxy): */
 /*            return value */
-  if ((PyObject*)Py_TYPE(value) == Proxy)
+  if (PyObject_TypeCheck(value, (PyTypeObject *)Proxy))
     {
       Py_INCREF(value);
       return value;
@@ -292,8 +292,18 @@ Checker_proxy(Checker *self, PyObject *value)
 /*         if checker is None: */
   if (checker == NULL)
     {
+      if (!PyErr_ExceptionMatches(PyExc_AttributeError))
+        return NULL;
       PyErr_Clear();
+    }
+  else if (checker == Py_None)
+    {
+      Py_DECREF(checker);
+      checker = NULL;
+    }
 
+  if (checker == NULL)
+    {
 /*             checker = selectChecker(value) */
       checker = selectChecker(NULL, value);
       if (checker == NULL)
@@ -308,20 +318,6 @@ Checker_proxy(Checker *self, PyObject *value)
           return value;
         }
     }
-  else if (checker == Py_None)
-    {
-      PyObject *errv = Py_BuildValue("sO",
-                                     "Invalid value, None. "
-                                     "for security checker",
-                                     value);
-      if (errv != NULL)
-        {
-          PyErr_SetObject(PyExc_ValueError, errv);
-          Py_DECREF(errv);
-        }
-
-      return NULL;
-    }
 
   r = PyObject_CallFunctionObjArgs(Proxy, value, checker, NULL);
   Py_DECREF(checker);
-- 
2.43.0


From c53f06bbd7e1ebad3c8e7fe920d9eee34b2b6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 09/28] fix: initialising a C checker again releases the old
 permissions

---
 src/zope/security/_zope_security_checker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 6b48533..fb9eb16 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -384,6 +384,8 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
                                     &PyDict_Type, &setperms))
     return -1;
 
+  Checker_clear(self);
+
   Py_INCREF(getperms);
   self->getperms = getperms;
   Py_XINCREF(setperms);
-- 
2.43.0


From 7d3d1efdec5785c4e71bf4f26851b0bb2b044f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 10/28] fix: protect non-boolean results of comparisons in the
 Python proxy

---
 src/zope/security/proxy.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..69e624d 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,14 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _proxy_non_bool(res, checker):
+    # Comparisons are not checked, but they may return arbitrary objects,
+    # which need to be protected.
+    if res is True or res is False:
+        return res
+    return checker.proxy(res)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +185,38 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        checker = super().__getattribute__('_checker')
+        return _proxy_non_bool(wrapped < other, checker)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        checker = super().__getattribute__('_checker')
+        return _proxy_non_bool(wrapped <= other, checker)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        checker = super().__getattribute__('_checker')
+        return _proxy_non_bool(wrapped == other, checker)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        checker = super().__getattribute__('_checker')
+        return _proxy_non_bool(wrapped != other, checker)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        checker = super().__getattribute__('_checker')
+        return _proxy_non_bool(wrapped >= other, checker)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        checker = super().__getattribute__('_checker')
+        return _proxy_non_bool(wrapped > other, checker)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From 8540f76dbc901f2a9443175a2540f61cff17548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 11/28] fix: in-place operators of the Python proxy never
 change what it guards

---
 src/zope/security/proxy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 69e624d..e3246c1 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,18 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    op = getattr(operator, name)
 
-    def _wrapper(self, *args, **kw):
+    def _wrapper(self, other):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
+        # ``op`` falls back to the other forms of the operator as needed.
+        res = op(wrapped, other)
+        if res is wrapped:
             # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From 4c56bc4d1b1dc63d5fcd58bf13d8a92e216f0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 12/28] fix: forbid changing _wrapped and _checker of a Python
 proxy from outside

---
 src/zope/security/proxy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index e3246c1..16b5bbb 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -89,16 +89,16 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
-        inst = super().__new__(cls)
-        inst._wrapped = value
-        inst._checker = checker
+        inst = object.__new__(cls)
+        object.__setattr__(inst, '_wrapped', value)
+        object.__setattr__(inst, '_checker', checker)
         return inst
 
     def __init__(self, value, checker):
         if checker is None:
             raise ValueError('checker may now be None')
-        self._wrapped = value
-        self._checker = checker
+        object.__setattr__(self, '_wrapped', value)
+        object.__setattr__(self, '_checker', checker)
 
     # Attribute protocol
     def __getattribute__(self, name):
@@ -169,6 +169,9 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
+            # Only allow _wrapped and _checker to be changed from inside.
+            if sys._getframe(1).f_locals.get('self') is not self:
+                raise AttributeError(name)
             return super().__setattr__(name, value)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
-- 
2.43.0


From 5d80ed25bb0f49eaf9fea280a0b31416219a441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:28 +0000
Subject: [PATCH 13/28] fix: a combined checker asks its first checker, also if
 that is combined itself

---
 src/zope/security/checker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..eb57437 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -559,12 +559,13 @@ class CombinedChecker(Checker):
                          checker1.get_permissions,
                          checker1.set_permissions)
 
+        self._checker1 = checker1
         self._checker2 = checker2
 
     def check(self, object, name):
         'See IChecker'
         try:
-            Checker.check(self, object, name)
+            self._checker1.check(object, name)
         except ForbiddenAttribute:
             self._checker2.check(object, name)
         except Unauthorized as unauthorized_exception:
@@ -578,7 +579,7 @@ class CombinedChecker(Checker):
     def check_setattr(self, object, name):
         'See IChecker'
         try:
-            Checker.check_setattr(self, object, name)
+            self._checker1.check_setattr(object, name)
         except ForbiddenAttribute:
             self._checker2.check_setattr(object, name)
         except Unauthorized as unauthorized_exception:
-- 
2.43.0


From 98dcbd51e8dfd6c85861fdef016eb04f7b9a0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:36 +0000
Subject: [PATCH 14/28] fix: the views of a dict do not hand out bare contents

---
 src/zope/security/checker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index eb57437..703769d 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -748,6 +748,13 @@ _setChecker = NamesChecker([
     '__le__', '__ge__',
 ])
 
+# The views of a dict hand out its contents, so they need to be protected.
+_dictViewChecker = NamesChecker([
+    '__iter__', '__len__', '__str__', '__contains__', 'isdisjoint',
+    '__and__', '__or__', '__sub__', '__xor__',
+    '__rand__', '__ror__', '__rsub__', '__rxor__',
+])
+
 
 class _BasicTypes(dict):
     """Basic Types Dictionary
@@ -787,9 +794,6 @@ _basic_types = {
     datetime.date: NoProxy,
     datetime.time: NoProxy,
     datetime.tzinfo: NoProxy,
-    type({}.values()): NoProxy,
-    type({}.keys()): NoProxy,
-    type({}.items()): NoProxy,
 }
 
 try:
@@ -896,6 +900,11 @@ _default_checkers = {
     type(iter([])): _iteratorChecker,
     type(iter(())): _iteratorChecker,
     type(iter({})): _iteratorChecker,
+    type({}.keys()): _dictViewChecker,
+    type({}.values()): _dictViewChecker,
+    type({}.items()): _dictViewChecker,
+    type(iter({}.values())): _iteratorChecker,
+    type(iter({}.items())): _iteratorChecker,
     type(iter(set())): _iteratorChecker,
     type(iter(_Sequence())): _iteratorChecker,
     type(f()): _iteratorChecker,
-- 
2.43.0


From fffff9a0afad6c8df5a889ea90acfc0ba562f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:09 +0000
Subject: [PATCH 15/28] fix: string forms of the Python proxy behave like those
 of the C proxy

---
 src/zope/security/proxy.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 16b5bbb..40cc3d3 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -75,6 +75,13 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+def _default_repr(obj):
+    # What can be told about an object that may not be converted to a string.
+    klass = obj.__class__
+    return '<security proxied {}.{} instance at {}>'.format(
+        klass.__module__, klass.__name__, _fmt_address(obj))
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -243,33 +250,24 @@ class ProxyPy(PyProxyBase):
             return hint()
 
     def __str__(self):
+        wrapped = super().__getattribute__('_wrapped')
+        checker = super().__getattribute__('_checker')
         try:
-            return _check_name(PyProxyBase.__str__)(self)
-        # The C implementation catches almost all exceptions; the
-        # exception is a TypeError that's raised when the repr returns
-        # the wrong type of object.
-        except TypeError:
-            raise
+            checker.check(wrapped, '__str__')
         except:  # noqa: E722 do not use bare 'except'
             # The C implementation catches all exceptions.
-            wrapped = super().__getattribute__('_wrapped')
-            return '<security proxied {}.{} instance at {}>'.format(
-                wrapped.__class__.__module__, wrapped.__class__.__name__,
-                _fmt_address(wrapped))
+            return _default_repr(wrapped)
+        return str(wrapped)
 
     def __repr__(self):
+        wrapped = super().__getattribute__('_wrapped')
+        checker = super().__getattribute__('_checker')
         try:
-            return _check_name(PyProxyBase.__repr__)(self)
-        # The C implementation catches almost all exceptions; the
-        # exception is a TypeError that's raised when the repr returns
-        # the wrong type of object.
-        except TypeError:
-            raise
+            checker.check(wrapped, '__repr__')
         except:  # noqa: E722 do not use bare 'except'
-            wrapped = super().__getattribute__('_wrapped')
-            return '<security proxied {}.{} instance at {}>'.format(
-                wrapped.__class__.__module__, wrapped.__class__.__name__,
-                _fmt_address(wrapped))
+            # The C implementation catches all exceptions.
+            return _default_repr(wrapped)
+        return repr(wrapped)
 
 
 for name in ['__call__',
-- 
2.43.0


From 9b9e0ed40c91b04a0532fcc0f2745f05e5ecda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:14 +0000
Subject: [PATCH 16/28] fix: the interaction() helper leaves a false
 interaction alone

An interaction may define __len__ or __bool__; only None means that there
is none, as newInteraction() has it.
---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0


From b389211c67851ec9a5baee4f2ba6ec3cdcc139f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:41 +0000
Subject: [PATCH 17/28] fix: remove the given participation from an
 interaction, not an equal one

list.remove() compares with ==, so with two equal participations the other
one was dropped from the list while this one lost its interaction.
---
 src/zope/security/simplepolicies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..e7c3260 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,9 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        # The very one, not one that happens to be equal to it.
+        ids = [id(own) for own in self.participations]
+        del self.participations[ids.index(id(participation))]
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From 7d1a2d2d5fbd6b66aee793f940d9b243ded989bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:41 +0000
Subject: [PATCH 18/28] fix: a registered permission is defined even if it is
 false

---
 src/zope/security/permission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/permission.py b/src/zope/security/permission.py
index 9103477..33395e8 100644
--- a/src/zope/security/permission.py
+++ b/src/zope/security/permission.py
@@ -49,7 +49,7 @@ def checkPermission(context, permission_id):
     """
     if permission_id is CheckerPublic:
         return
-    if not queryUtility(IPermission, permission_id, context=context):
+    if queryUtility(IPermission, permission_id, context=context) is None:
         raise ValueError("Undefined permission ID", permission_id)
 
 
-- 
2.43.0


From 5d6022ad7556620931ca3aac51e3a318e570ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:21 +0000
Subject: [PATCH 19/28] fix: canAccess and canWrite ask about the real object

They gave the checker the proxy instead.  A checker decides about an
undeclared __iter__ by looking whether the object has one, which the proxy
itself denied, so canAccess(obj, '__iter__') was true although iterating
is forbidden; and policies saw another object than they see on access.
---
 src/zope/security/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 703769d..c91d81d 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -86,6 +86,7 @@ from zope.security.interfaces import ISecurityProxyFactory
 from zope.security.interfaces import Unauthorized
 from zope.security.proxy import Proxy
 from zope.security.proxy import getChecker
+from zope.security.proxy import removeSecurityProxy
 
 
 try:
@@ -149,6 +150,8 @@ def canWrite(obj, name):
     """
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # ask about the real object, as the proxy itself does
+    obj = removeSecurityProxy(obj)
     try:
         checker.check_setattr(obj, name)
     except Unauthorized:
@@ -186,6 +189,8 @@ def canAccess(obj, name):
     # implementation, special names like __getitem__
     obj = ProxyFactory(obj)
     checker = getChecker(obj)
+    # ask about the real object, as the proxy itself does
+    obj = removeSecurityProxy(obj)
     try:
         checker.check_getattr(obj, name)
     except Unauthorized:
-- 
2.43.0


From b09627bf921faff7e4975c537228c59207523036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 20/28] fix: accept the documented interface attribute of a
 module's require directive

The schema left it out, so that such a configuration was rejected, although
IRequire documents it and the handler implements it.
---
 src/zope/security/metadirectives.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..79a56cf 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -201,3 +201,10 @@ class IRequire(Interface):
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
+
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whos names to require the permission for. "
+                     "Multiple interfaces can be supplied."),
+        value_type=GlobalInterface(),
+        required=False)
-- 
2.43.0


From 25b6fe4b9f8d39fa0ebb3f9c6534a744a566a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 21/28] fix: redefinePermission in a nested context leaked into
 the enclosing one

---
 src/zope/security/zcml.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index d24e04d..cdf89a3 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -119,8 +119,12 @@ class IRedefinePermission(Interface):
 def redefinePermission(_context, from_, to):
     _context = _context.context
 
-    # check if context has any permission mappings yet
-    if not hasattr(_context, 'permission_mapping'):
-        _context.permission_mapping = {}
-
-    _context.permission_mapping[from_] = to
+    # Nested contexts see the mapping of the enclosing one as theirs.  It
+    # must not be changed from here, so such a context gets a copy.
+    mapping = getattr(_context, 'permission_mapping', None)
+    outer = getattr(_context, 'context', None)
+    if mapping is None or mapping is getattr(
+            outer, 'permission_mapping', None):
+        mapping = _context.permission_mapping = dict(mapping or ())
+
+    mapping[from_] = to
-- 
2.43.0


From a55b186e1bfd14aafc28e3e8504ab83e20f483cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 22/28] fix: C proxy: int() and float() refused objects that
 have no such slot themselves

---
 src/zope/security/_proxy.c | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 40e14a1..d88aee6 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -471,22 +471,6 @@ proxy_call(SecurityProxy *self, PyObject *args, PyObject *kwds)
  * Number methods.
  */
 
-#define NUMBER_METHOD(M) \
-static PyObject * \
-call_##M(PyObject *self) \
-{ \
-  PyNumberMethods *nb = self->ob_type->tp_as_number; \
-  if (nb == NULL || nb->nb_##M == NULL) { \
-    PyErr_SetString(PyExc_TypeError, \
-                    "object can't be converted to " #M); \
-    return NULL; \
-  } \
-  return nb->nb_##M(self); \
-}
-
-NUMBER_METHOD(int)
-NUMBER_METHOD(float)
-
 static PyObject *
 call_ipow(PyObject *self, PyObject *other)
 {
@@ -557,8 +541,8 @@ proxy_bool(PyObject *self)
 }
 
 UNOP(invert, PyNumber_Invert)
-UNOP(int, call_int)
-UNOP(float, call_float)
+UNOP(int, PyNumber_Long)
+UNOP(float, PyNumber_Float)
 UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
-- 
2.43.0


From 466aa88de43f4a54d567cea383ce56b46d51ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 23/28] fix: objects whose __class__ is Proxy were taken for
 proxies and left unprotected

---
 src/zope/security/checker.py   | 5 +++--
 src/zope/security/decorator.py | 2 +-
 src/zope/security/proxy.py     | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index c91d81d..ed47c60 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -109,7 +109,8 @@ def ProxyFactory(object, checker=None):
 
     The proxy checker is looked up if not provided.
     """
-    if isinstance(object, Proxy):
+    # Only the type counts, an object may lie about its class.
+    if issubclass(type(object), Proxy):
         if checker is None or checker is getChecker(object):
             return object
         else:
@@ -284,7 +285,7 @@ class CheckerPy:
 
     def proxy(self, value):
         'See IChecker'
-        if isinstance(value, Proxy):
+        if issubclass(type(value), Proxy):
             return value
         checker = getattr(value, '__Security_checker__', None)
         if checker is None:
diff --git a/src/zope/security/decorator.py b/src/zope/security/decorator.py
index 5ad9649..97834f9 100644
--- a/src/zope/security/decorator.py
+++ b/src/zope/security/decorator.py
@@ -36,7 +36,7 @@ class DecoratedSecurityCheckerDescriptor:
             return self
         else:
             proxied_object = getProxiedObject(inst)
-            if isinstance(proxied_object, Proxy):
+            if issubclass(type(proxied_object), Proxy):
                 checker = getChecker(proxied_object)
             else:
                 checker = getattr(proxied_object, '__Security_checker__', None)
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 40cc3d3..dfaf5cb 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -360,7 +360,9 @@ _builtin_isinstance = sys.modules['builtins'].isinstance
 
 
 def getObjectPy(proxy):
-    if not _builtin_isinstance(proxy, ProxyPy):
+    if not (_builtin_isinstance(proxy, ProxyPy)
+            # An object may lie about its class.
+            and issubclass(type(proxy), ProxyPy)):
         return proxy
     return super(ProxyPy, proxy).__getattribute__('_wrapped')
 
-- 
2.43.0


From a594169a031d82615558dd3dc81b58e2c221f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 24/28] fix: pure proxy: next() of a non-iterator raised
 AttributeError instead of TypeError

---
 src/zope/security/proxy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index dfaf5cb..7043bfc 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -289,7 +289,6 @@ for name in ['__call__',
              '__setitem__',
              '__delitem__',
              '__iter__',
-             '__next__',
              '__contains__',
              '__neg__',
              '__pos__',
@@ -329,6 +328,16 @@ for name in ['__call__',
     meth = getattr(PyProxyBase, name)
     setattr(ProxyPy, name, _check_name(meth))
 
+
+def __next__(self):
+    # The method of the base class raises AttributeError if the object is no
+    # iterator.
+    return next(super(ProxyPy, self).__getattribute__('_wrapped'))
+
+
+ProxyPy.__next__ = _check_name(__next__)
+del __next__
+
 for name in (
         '__len__',
 ):
-- 
2.43.0


From e6efff2e03728d7a4e17e0828414a2165c1fc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 25/28] fix: C proxy: an AttributeError of __length_hint__
 itself was swallowed

---
 src/zope/security/_proxy.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d88aee6..4c67178 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -576,15 +576,20 @@ proxy_length(SecurityProxy *self)
 static PyObject *
 proxy_length_hint(SecurityProxy *self)
 {
+  PyObject *method = NULL;
   PyObject *result = NULL;
-  result = PyObject_CallMethod(self->proxy.proxy_object, "__length_hint__", NULL);
-  if (result == NULL) {
+  method = PyObject_GetAttrString(self->proxy.proxy_object, "__length_hint__");
+  if (method == NULL) {
       if (PyErr_ExceptionMatches(PyExc_AttributeError)) {
             PyErr_Clear();
             result = Py_NotImplemented;
             Py_INCREF(result);
       }
+      return result;
   }
+  /* An AttributeError of the method itself is not ours to hide. */
+  result = PyObject_CallObject(method, NULL);
+  Py_DECREF(method);
   return result;
 }
 
-- 
2.43.0


From c9ac89d65ad4bf9af39c27949b9d4e260d9ca332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 26/28] fix: iteration over a sequence needed no permission for
 its items

An undeclared __iter__ was let through for objects without one, to get the
ordinary error.  An object with only __getitem__ is iterated by its items,
though, so all of them could be had without any permission.  Ask for
__getitem__ in that case.
---
 src/zope/security/_zope_security_checker.c | 19 ++++++++++++++++---
 src/zope/security/checker.py               |  4 ++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index fb9eb16..88f0d61 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -196,9 +196,22 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
       if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
-        /* We want an attr error if we're asked for __iter__ and we don't
-           have it. We'll get one by allowing the access. */
-        return 0;
+        {
+          PyObject *getitem;
+          int result = 0;
+
+          /* Python iterates over an object without __iter__ by its items. */
+          getitem = PyUnicode_InternFromString("__getitem__");
+          if (getitem == NULL)
+            return -1;
+          if (PyObject_HasAttr((PyObject *)Py_TYPE(object), getitem))
+            result = Checker_check_int(self, object, getitem);
+          Py_DECREF(getitem);
+
+          /* We want an attr error if we're asked for __iter__ and we don't
+             have it. We'll get one by allowing the access. */
+          return result;
+        }
     }
 
   {
diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index ed47c60..54b035d 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -281,6 +281,10 @@ class CheckerPy:
             __traceback_supplement__ = (TracebackSupplement, object)
             raise ForbiddenAttribute(name, object)
 
+        # Python iterates over an object without __iter__ by its items.
+        if hasattr(type(object), '__getitem__'):
+            CheckerPy.check(self, object, '__getitem__')
+
     check_getattr = check  # 'See IChecker'
 
     def proxy(self, value):
-- 
2.43.0


From aa06ea6139c3e8e884ec9e1bc095ec74d8bef8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 27/28] fix: C checker: permission tables replaced during a
 lookup were used after being freed

Comparing the looked up name may run any code, including a second
__init__ of the checker, which drops the dictionary and its values.
---
 src/zope/security/_zope_security_checker.c | 79 ++++++++++++----------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 88f0d61..074ab68 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -54,44 +54,43 @@ typedef struct {
         PyObject *getperms, *setperms;
 } Checker;
 
-/*     def permission_id(self, name): */
+/* Look up a name, whose comparison may run any code, including code that
+   replaces the dictionary. Returns a new reference, None for no permission. */
 static PyObject *
-Checker_permission_id(Checker *self, PyObject *name)
+get_permission(PyObject *permissions, PyObject *name)
 {
-/*         return self._permission_func(name) */
-  PyObject *result;
+  PyObject *result = NULL;
 
-  if (self->getperms)
+  if (permissions != NULL)
     {
-      result = PyDict_GetItem(self->getperms, name);
-      if (result == NULL)
-        result = Py_None;
+      Py_INCREF(permissions);
+      result = PyDict_GetItem(permissions, name);
+      Py_XINCREF(result);
+      Py_DECREF(permissions);
     }
-  else
-    result = Py_None;
 
-  Py_INCREF(result);
+  if (result == NULL)
+    {
+      Py_INCREF(Py_None);
+      result = Py_None;
+    }
   return result;
 }
 
+/*     def permission_id(self, name): */
+static PyObject *
+Checker_permission_id(Checker *self, PyObject *name)
+{
+/*         return self._permission_func(name) */
+  return get_permission(self->getperms, name);
+}
+
 /*     def setattr_permission_id(self, name): */
 static PyObject *
 Checker_setattr_permission_id(Checker *self, PyObject *name)
 {
 /*         return self._setattr_permission_func(name) */
-  PyObject *result;
-
-  if (self->setperms)
-    {
-      result = PyDict_GetItem(self->setperms, name);
-      if (result == NULL)
-        result = Py_None;
-    }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
-  return result;
+  return get_permission(self->setperms, name);
 }
 
 static int
@@ -158,21 +157,22 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
       return -1;
     }
 
-  if (self->getperms)
-    permission = PyDict_GetItem(self->getperms, name);
+  permission = get_permission(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL && permission != Py_None)
+  if (permission != Py_None)
     {
+      int result = 0;
+
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission == CheckerPublic)
-        return 0;
+      if (permission != CheckerPublic)
+        result = checkPermission(permission, object, name);
 
-      if (checkPermission(permission, object, name) < 0)
-        return -1;
-      return 0;
+      Py_DECREF(permission);
+      return result;
     }
+  Py_DECREF(permission);
 
 
   operator = (IS_STRING(name)
@@ -255,21 +255,26 @@ Checker_check_setattr(Checker *self, PyObject *args)
     return NULL;
 
 /*         permission = self._permission_func(name) */
-  if (self->setperms)
-    permission = PyDict_GetItem(self->setperms, name);
+  permission = get_permission(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL && permission != Py_None)
+  if (permission != Py_None)
     {
+      int result = 0;
+
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission != CheckerPublic
-          && checkPermission(permission, object, name) < 0)
+      if (permission != CheckerPublic)
+        result = checkPermission(permission, object, name);
+
+      Py_DECREF(permission);
+      if (result < 0)
         return NULL;
 
       Py_INCREF(Py_None);
       return Py_None;
     }
+  Py_DECREF(permission);
 
 /*         __traceback_supplement__ = (TracebackSupplement, object) */
 /*         raise ForbiddenAttribute, (name, object) */
-- 
2.43.0


From 5b967c4803316fbb391b184a850bdc627c11eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 28/28] fix: a broken __repr__ changed the outcome of a watched
 check

With ZOPE_WATCH_CHECKERS set, an exception of the object's __repr__
replaced the verdict, granted or not.
---
 src/zope/security/checker.py | 43 ++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 54b035d..3e40a46 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -619,23 +619,30 @@ class CheckerLoggingMixin:
         if self.verbosity >= verbosity:
             self._file.write('%s\n' % msg)
 
+    def _repr(self, object):
+        # A broken __repr__ must not change the outcome of the check.
+        try:
+            return repr(object)
+        except Exception:
+            return f'<unprintable {type(object).__name__} object>'
+
     def check(self, object, name):
         try:
             super().check(object, name)
             if self.verbosity > 1:
                 if name in _available_by_default:
-                    self._log('[CHK] + Always available: %s on %r'
-                              % (name, object), 2)
+                    self._log('[CHK] + Always available: %s on %s'
+                              % (name, self._repr(object)), 2)
                 else:
                     self._log(
-                        f'[CHK] + Granted: {name} on {object!r}', 2)
+                        f'[CHK] + Granted: {name} on {self._repr(object)}', 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized: {name} on {object!r}')
+                f'[CHK] - Unauthorized: {name} on {self._repr(object)}')
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden: {name} on {object!r}')
+                f'[CHK] - Forbidden: {name} on {self._repr(object)}')
             raise
 
     def check_getattr(self, object, name):
@@ -644,20 +651,21 @@ class CheckerLoggingMixin:
             if self.verbosity > 1:
                 if name in _available_by_default:
                     self._log(
-                        '[CHK] + Always available getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Always available getattr: %s on %s'
+                        % (name, self._repr(object)), 2)
                 else:
                     self._log(
-                        '[CHK] + Granted getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Granted getattr: %s on %s'
+                        % (name, self._repr(object)), 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized getattr: {name} on {object!r}'
-            )
+                '[CHK] - Unauthorized getattr: {} on {}'.format(
+                    name, self._repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden getattr: {name} on {object!r}')
+                '[CHK] - Forbidden getattr: {} on {}'.format(
+                    name, self._repr(object)))
             raise
 
     __setitem__ = check_getattr
@@ -667,16 +675,17 @@ class CheckerLoggingMixin:
             super().check_setattr(object, name)
             if self.verbosity > 1:
                 self._log(
-                    '[CHK] + Granted setattr: {} on {!r}'.format(
-                        name, object), 2)
+                    '[CHK] + Granted setattr: {} on {}'.format(
+                        name, self._repr(object)), 2)
         except Unauthorized:
             self._log(
-                '[CHK] - Unauthorized setattr: {} on {!r}'.format(
-                    name, object))
+                '[CHK] - Unauthorized setattr: {} on {}'.format(
+                    name, self._repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden setattr: {name} on {object!r}')
+                '[CHK] - Forbidden setattr: {} on {}'.format(
+                    name, self._repr(object)))
             raise
 
 
-- 
2.43.0

