"""Names Jython defines on its builtin types and as builtins: what the engine lacks of them is
reported as outside the verified subset, never as a missing attribute or name."""
OBJECT = '__class__ __delattr__ __doc__ __ensure_finalizer__ __format__ __getattribute__ __hash__ __init__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __str__ __subclasshook__'.split()
TYPES = {
    'Exception': '__dict__ __getitem__ __getslice__ __setstate__ __unicode__ __weakref__ args message'.split(),
    'NoneType': ''.split(),
    'bool': '__abs__ __add__ __and__ __cmp__ __coerce__ __div__ __divmod__ __float__ __floordiv__ __getnewargs__ __hex__ __index__ __int__ __invert__ __long__ __lshift__ __mod__ __mul__ __neg__ __nonzero__ __oct__ __or__ __pos__ __pow__ __radd__ __rand__ __rdiv__ __rdivmod__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __sub__ __truediv__ __trunc__ __xor__ bit_length conjugate denominator imag numerator real'.split(),
    'complex': '__abs__ __add__ __coerce__ __div__ __divmod__ __eq__ __float__ __floordiv__ __ge__ __getnewargs__ __gt__ __int__ __le__ __long__ __lt__ __mod__ __mul__ __ne__ __neg__ __nonzero__ __pos__ __pow__ __radd__ __rdiv__ __rdivmod__ __rfloordiv__ __rmod__ __rmul__ __rpow__ __rsub__ __rtruediv__ __sub__ __truediv__ conjugate imag real'.split(),
    'dict': '__cmp__ __contains__ __delitem__ __eq__ __ge__ __getitem__ __gt__ __iter__ __le__ __len__ __lt__ __ne__ __setitem__ clear copy fromkeys get has_key items iteritems iterkeys itervalues keys pop popitem setdefault setifabsent update values viewitems viewkeys viewvalues'.split(),
    'file': '__enter__ __exit__ __iter__ close closed encoding errors fileno flush isatty mode name newlines next read readinto readline readlines seek softspace tell truncate write writelines xreadlines'.split(),
    'float': '__abs__ __add__ __cmp__ __coerce__ __div__ __divmod__ __float__ __floordiv__ __getformat__ __getnewargs__ __int__ __long__ __mod__ __mul__ __neg__ __nonzero__ __pos__ __pow__ __radd__ __rdiv__ __rdivmod__ __rfloordiv__ __rmod__ __rmul__ __rpow__ __rsub__ __rtruediv__ __setformat__ __sub__ __truediv__ __trunc__ as_integer_ratio conjugate fromhex hex imag is_integer real'.split(),
    'frozenset': '__and__ __cmp__ __contains__ __eq__ __ge__ __gt__ __iter__ __le__ __len__ __lt__ __ne__ __or__ __sub__ __xor__ copy difference intersection isdisjoint issubset issuperset symmetric_difference union'.split(),
    'function': '__call__ __closure__ __code__ __defaults__ __dict__ __get__ __globals__ __module__ __name__ func_closure func_code func_defaults func_dict func_doc func_globals func_name'.split(),
    'int': '__abs__ __add__ __and__ __cmp__ __coerce__ __div__ __divmod__ __float__ __floordiv__ __getnewargs__ __hex__ __index__ __int__ __invert__ __long__ __lshift__ __mod__ __mul__ __neg__ __nonzero__ __oct__ __or__ __pos__ __pow__ __radd__ __rand__ __rdiv__ __rdivmod__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __sub__ __truediv__ __trunc__ __xor__ bit_length conjugate denominator imag numerator real'.split(),
    'list': '__add__ __contains__ __delitem__ __delslice__ __eq__ __ge__ __getitem__ __getslice__ __gt__ __iadd__ __imul__ __iter__ __le__ __len__ __lt__ __mul__ __ne__ __radd__ __reversed__ __rmul__ __setitem__ __setslice__ append count extend index insert pop remove reverse sort'.split(),
    'long': '__abs__ __add__ __and__ __cmp__ __coerce__ __div__ __divmod__ __float__ __floordiv__ __getnewargs__ __hex__ __index__ __int__ __invert__ __long__ __lshift__ __mod__ __mul__ __neg__ __nonzero__ __oct__ __or__ __pos__ __pow__ __radd__ __rand__ __rdiv__ __rdivmod__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __sub__ __truediv__ __trunc__ __xor__ bit_length conjugate denominator imag numerator real'.split(),
    'property': '__delete__ __get__ __set__ deleter fdel fget fset getter setter'.split(),
    'set': '__and__ __cmp__ __contains__ __eq__ __ge__ __gt__ __iand__ __ior__ __isub__ __iter__ __ixor__ __le__ __len__ __lt__ __ne__ __or__ __sub__ __xor__ add clear copy difference difference_update discard intersection intersection_update isdisjoint issubset issuperset pop remove symmetric_difference symmetric_difference_update union update'.split(),
    'slice': 'indices start step stop'.split(),
    'str': '__add__ __cmp__ __contains__ __eq__ __ge__ __getitem__ __getnewargs__ __getslice__ __gt__ __le__ __len__ __lt__ __mod__ __mul__ __ne__ __rmul__ _formatter_field_name_split _formatter_parser capitalize center count decode encode endswith expandtabs find format index isalnum isalpha isdecimal isdigit islower isnumeric isspace istitle isunicode isupper join ljust lower lstrip partition replace rfind rindex rjust rpartition rsplit rstrip split splitlines startswith strip swapcase title translate upper zfill'.split(),
    'tuple': '__add__ __contains__ __eq__ __ge__ __getitem__ __getnewargs__ __getslice__ __gt__ __iter__ __le__ __len__ __lt__ __mul__ __ne__ __rmul__ count index'.split(),
    'unicode': '__add__ __cmp__ __contains__ __eq__ __ge__ __getitem__ __getnewargs__ __getslice__ __gt__ __le__ __len__ __lt__ __mod__ __mul__ __ne__ __rmul__ _formatter_field_name_split _formatter_parser capitalize center count decode encode endswith expandtabs find format index isalnum isalpha isdecimal isdigit islower isnumeric isspace istitle isunicode isupper join ljust lower lstrip partition replace rfind rindex rjust rpartition rsplit rstrip split splitlines startswith strip swapcase title translate upper zfill'.split(),
}
BUILTINS = 'ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning DeprecationWarning EOFError Ellipsis EnvironmentError Exception False FloatingPointError FutureWarning GeneratorExit IOError ImportError ImportWarning IndentationError IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError None NotImplemented NotImplementedError OSError OverflowError PendingDeprecationWarning ReferenceError RuntimeError RuntimeWarning StandardError StopIteration SyntaxError SyntaxWarning SystemError SystemExit TabError True TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError UnicodeTranslateError UnicodeWarning UserWarning ValueError Warning ZeroDivisionError __debug__ __doc__ __import__ __name__ abs all any apply basestring bin bool buffer bytearray bytes callable chr classmethod cmp coerce compile complex copyright credits delattr dict dir divmod enumerate eval execfile exit file filter float format frozenset getattr globals hasattr hash help hex id input int intern isinstance issubclass iter len license list locals long map max memoryview min next object oct open ord pow print property quit range raw_input reduce reload repr reversed round set setattr slice sorted staticmethod str sum super tuple type unichr unicode vars xrange zip'.split()
