// Runtime of the pybind11 stand-in (mini/pybind11/pybind11.h)
#define VP_NUMPY_OWNER
#include <pybind11/pybind11.h>

namespace pybind11 {
namespace detail {

auto classes() -> std::map<std::type_index, ClassInfo>& {
  static auto* m = new std::map<std::type_index, ClassInfo>();
  return *m;
}
auto enums() -> std::map<std::type_index, PyObject*>& {
  static auto* m = new std::map<std::type_index, PyObject*>();
  return *m;
}

static const char* SOURCE = R"py(
class Iterator:
    __slots__ = ('fn', 'keep', '__weakref__')
    def __init__(self, fn):
        self.fn = fn
    def __iter__(self):
        return self
    def __next__(self):
        r = self.fn()
        if r is END:
            raise StopIteration
        return r
END = object()
def enum(name, module, qualname, arithmetic):
    class E:
        __slots__ = ('value',)
        def __init__(self, value):
            if not isinstance(value, int):
                value = value.__index__()
            object.__setattr__(self, 'value', value)
        def __setattr__(self, n, v):
            raise AttributeError(n)
        def __int__(self):
            return self.value
        def __index__(self):
            return self.value
        def __hash__(self):
            return hash(self.value)
        def __eq__(self, o):
            if arithmetic:
                try:
                    return o is not None and self.value == int(o)
                except (TypeError, ValueError):
                    return NotImplemented
            return type(self) is type(o) and self.value == o.value
        def __ne__(self, o):
            r = self.__eq__(o)
            return r if r is NotImplemented else not r
        @property
        def name(self):
            for k, v in self.__members__.items():
                if v.value == self.value:
                    return k
            return '???'
        def __repr__(self):
            return '<%s.%s: %d>' % (name, self.name, self.value)
        def __str__(self):
            return '%s.%s' % (name, self.name)
        def __reduce__(self):
            return (type(self), (self.value,))
        @classmethod
        def _add(cls, n, v):
            cls.__members__[n] = cls(v)
            setattr(cls, n, cls.__members__[n])
        @classmethod
        def _export(cls, scope):
            for k, v in cls.__members__.items():
                setattr(scope, k, v)
    E.__name__ = name
    E.__qualname__ = qualname
    E.__module__ = module
    E.__members__ = {}
    return E
)py";

static PyObject* g_helpers = nullptr;
auto helper(const char* name) -> PyObject* { return PyDict_GetItemString(g_helpers, name); }

// -- instances
static auto instance_new(PyTypeObject* t, PyObject*, PyObject*) -> PyObject* {
  auto* o = t->tp_alloc(t, 0);
  if (o != nullptr) {
    auto* in = reinterpret_cast<Instance*>(o);
    in->holder = nullptr;
    in->value = nullptr;
    in->info = nullptr;
  }
  return o;
}
static auto instance_init(PyObject* o, PyObject*, PyObject*) -> int {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name);
  return -1;
}
static void instance_dealloc(PyObject* o) {
  auto* in = reinterpret_cast<Instance*>(o);
  auto* t = Py_TYPE(o);
  if (in->info != nullptr) {
    auto it = in->info->alive.find(in->value);
    if (it != in->info->alive.end() && it->second == o) in->info->alive.erase(it);
  }
  delete in->holder;
  in->holder = nullptr;
  t->tp_free(o);
  Py_DECREF(t);
}

auto base_type() -> PyTypeObject* {
  static PyTypeObject* t = nullptr;
  if (t == nullptr) {
    static PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void*>(instance_new)},
                                  {Py_tp_init, reinterpret_cast<void*>(instance_init)},
                                  {Py_tp_dealloc, reinterpret_cast<void*>(instance_dealloc)},
                                  {0, nullptr}};
    static PyType_Spec spec = {"pybind11_builtins.pybind11_object", sizeof(Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    t = reinterpret_cast<PyTypeObject*>(PyType_FromSpec(&spec));
  }
  return t;
}

// -- functions
static auto dispatch(Function* fn, PyObject* args, PyObject* kwargs) -> PyObject* {
  const auto given = static_cast<size_t>(PyTuple_GET_SIZE(args));
  const bool overloaded = fn->overloads.size() > 1;
  for (int pass = overloaded ? 0 : 1; pass < 2; ++pass) {
    for (auto& o : fn->overloads) {
      if (given > o.nargs) continue;
      Values v;
      bool ok = true;
      size_t used = 0;
      for (size_t i = 0; i < given; ++i) {
        v.emplace_back(PyTuple_GET_ITEM(args, i));
        // the same argument twice
        if (kwargs != nullptr && i < o.args.size() && !o.args[i].name.empty() && PyDict_GetItemString(kwargs, o.args[i].name.c_str()) != nullptr) ok = false;
      }
      for (size_t i = given; ok && i < o.nargs; ++i) {
        PyObject* p = nullptr;
        if (i < o.args.size()) {
          if (kwargs != nullptr && !o.args[i].name.empty()) p = PyDict_GetItemString(kwargs, o.args[i].name.c_str());
          if (p != nullptr) ++used;
          else if (o.args[i].has_default) p = o.args[i].value.ptr();
        }
        if (p == nullptr) ok = false;
        v.emplace_back(p);
      }
      for (size_t i = 0; ok && i < v.size() && i < o.args.size(); ++i) {
        v[i].convert = o.args[i].convert;
        ok = o.args[i].nones || !v[i].is_none();
      }
      if (!ok || (kwargs != nullptr && used != static_cast<size_t>(PyDict_GET_SIZE(kwargs)))) continue;
      if (o.method && !o.constructor && !v.empty()) {
        // a method of an object that was never constructed
        auto* in = instance(v[0].ptr());
        if (in != nullptr && in->value == nullptr) {
          PyErr_SetString(PyExc_TypeError, "__init__() must be called when overriding __init__");
          return nullptr;
        }
      }
      try {
        auto* r = o.call(v, pass == 1);
        if (r != nullptr) {
          if (o.keep && PyObject_SetAttrString(r, "keep", v[0].ptr()) != 0) PyErr_Clear();
          return r;
        }
        if (PyErr_Occurred()) return nullptr;
      } catch (const error_already_set& e) {
        e.restore();
        return nullptr;
      } catch (const builtin_exception& e) {
        return PyErr_SetString(e.type(), e.what()), nullptr;
      } catch (const std::bad_alloc& e) {
        return PyErr_SetString(PyExc_MemoryError, e.what()), nullptr;
      } catch (const std::domain_error& e) {
        return PyErr_SetString(PyExc_ValueError, e.what()), nullptr;
      } catch (const std::invalid_argument& e) {
        return PyErr_SetString(PyExc_ValueError, e.what()), nullptr;
      } catch (const std::length_error& e) {
        return PyErr_SetString(PyExc_ValueError, e.what()), nullptr;
      } catch (const std::out_of_range& e) {
        return PyErr_SetString(PyExc_IndexError, e.what()), nullptr;
      } catch (const std::range_error& e) {
        return PyErr_SetString(PyExc_ValueError, e.what()), nullptr;
      } catch (const std::overflow_error& e) {
        return PyErr_SetString(PyExc_OverflowError, e.what()), nullptr;
      } catch (const std::exception& e) {
        return PyErr_SetString(PyExc_RuntimeError, e.what()), nullptr;
      } catch (...) {
        return PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"), nullptr;
      }
    }
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", fn->name.c_str());
  return nullptr;
}

static const char* CAPSULE = "vp.function";
static auto entry(PyObject* self, PyObject* args, PyObject* kwargs) -> PyObject* {
  auto* fn = static_cast<Function*>(PyCapsule_GetPointer(self, CAPSULE));
  return fn == nullptr ? nullptr : dispatch(fn, args, kwargs);
}
static void drop_function(PyObject* c) {
  auto* fn = static_cast<Function*>(PyCapsule_GetPointer(c, CAPSULE));
  delete fn;
}
auto new_function(Function* f) -> PyObject* {
  auto* cap = PyCapsule_New(f, CAPSULE, drop_function);
  auto* def = new PyMethodDef{strdup(f->name.c_str()), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(entry)), METH_VARARGS | METH_KEYWORDS, nullptr};
  auto* r = PyCFunction_NewEx(def, cap, nullptr);
  Py_DECREF(cap);
  return r;
}
auto function_of(PyObject* o) -> Function* {
  if (o == nullptr) return nullptr;
  if (PyInstanceMethod_Check(o)) o = PyInstanceMethod_GET_FUNCTION(o);
  if (!PyCFunction_Check(o)) return nullptr;
  auto* self = PyCFunction_GET_SELF(o);
  if (self == nullptr || !PyCapsule_IsValid(self, CAPSULE)) return nullptr;
  return static_cast<Function*>(PyCapsule_GetPointer(self, CAPSULE));
}

void add_function(PyObject* scope, const char* name, Overload o, bool is_static) {
  auto* old = PyObject_GetAttrString(scope, name);
  PyErr_Clear();
  auto* fn = function_of(old);
  Py_XDECREF(old);
  if (fn != nullptr && fn->scope == scope) {
    fn->overloads.push_back(std::move(o));
    return;
  }
  const bool method = o.method;
  fn = new Function;
  fn->name = name;
  fn->scope = scope;
  fn->overloads.push_back(std::move(o));
  auto f = object::steal(new_function(fn));
  if (method) f = object::steal(PyInstanceMethod_New(f.ptr()));
  if (is_static) f = object::steal(PyStaticMethod_New(f.ptr()));
  if (PyObject_SetAttrString(scope, name, f.ptr()) != 0) throw error_already_set();
  // equality without a hash: not hashable
  if (method && std::string(name) == "__eq__" && PyObject_SetAttrString(scope, "__hash__", Py_None) != 0) throw error_already_set();
}

static auto module_name(PyObject* scope) -> object {
  return object::steal(PyObject_GetAttrString(scope, PyModule_Check(scope) ? "__name__" : "__module__"));
}
static auto qualified(PyObject* scope, const char* name) -> object {
  if (PyModule_Check(scope)) return object::steal(PyUnicode_FromString(name));
  auto q = object::steal(PyObject_GetAttrString(scope, "__qualname__"));
  return object::steal(PyUnicode_FromFormat("%U.%s", q.ptr(), name));
}

auto add_class(PyObject* scope, const char* name, const ClassInfo* base, const char* doc) -> PyTypeObject* {
  auto* b = reinterpret_cast<PyObject*>(base != nullptr ? base->type : base_type());
  auto mod = module_name(scope), q = qualified(scope, name);
  auto t = object::steal(PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyType_Type), "s(O){s:(),s:O,s:O,s:s}", name, b, "__slots__", "__module__", mod.ptr(),
                                               "__qualname__", q.ptr(), "__doc__", doc));
  if (PyObject_SetAttrString(scope, name, t.ptr()) != 0) throw error_already_set();
  return reinterpret_cast<PyTypeObject*>(t.release().ptr());
}

void add_property(PyTypeObject* t, const char* name, Overload get, Overload* set) {
  auto make = [&](Overload o) -> object {
    auto* fn = new Function;
    fn->name = name;
    fn->overloads.push_back(std::move(o));
    return object::steal(new_function(fn));
  };
  auto g = make(std::move(get));
  auto s = set != nullptr ? make(std::move(*set)) : object::borrow(Py_None);
  auto p = object::steal(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), g.ptr(), s.ptr(), nullptr));
  if (PyObject_SetAttrString(reinterpret_cast<PyObject*>(t), name, p.ptr()) != 0) throw error_already_set();
}

auto add_enum(PyObject* scope, const char* name, bool arithmetic) -> PyObject* {
  auto mod = module_name(scope), q = qualified(scope, name);
  auto e = object::steal(PyObject_CallFunction(helper("enum"), "sOOO", name, mod.ptr(), q.ptr(), arithmetic ? Py_True : Py_False));
  if (PyObject_SetAttrString(scope, name, e.ptr()) != 0) throw error_already_set();
  return e.release().ptr();
}

static auto import_numpy() -> bool { return _import_array() >= 0; }

void start() {
  if (g_helpers != nullptr) return;
  if (!import_numpy()) throw error_already_set();
  g_helpers = PyDict_New();
  PyDict_SetItemString(g_helpers, "__builtins__", PyEval_GetBuiltins());
  PyDict_SetItemString(g_helpers, "__name__", object::steal(PyUnicode_FromString("vp")).ptr());
  object::steal(PyRun_String(SOURCE, Py_file_input, g_helpers, g_helpers));
}

}  // namespace detail
}  // namespace pybind11
