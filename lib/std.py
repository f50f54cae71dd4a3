"""standard library operations treated as single effects of the abstract
program; each preset is (argmem, opaque, pure)"""
VECTOR = ([r"@std::vector<.*>::(resize|push_back|emplace_back|reserve|assign|insert|erase|clear|operator=)(<.*>)?$",
           r"^std::vector<.*>::vector(<.*>)?\((unsigned long|std::vector<.*> const&|std::initializer_list|[^)s])"],
          [], [r"@std::vector<.*>::(~vector|shrink_to_fit)$"])
STRING = ([r"@std::__cxx11::basic_string<.*>::[^~][^:]*$", r"@std::(operator\+|operator==|operator!=|operator<|to_string|stoi|stol|stod)(<.*>)?$",
           r"@std::__cxx11::to_string$"],
          [], [r"@std::__cxx11::basic_string<.*>::~basic_string$"])
MAP = ([r"@std::(__cxx11::)?(map|set|unordered_map|unordered_set|multimap|multiset|unordered_multimap|unordered_multiset|list|deque)<.*>::[^~:][^:]*$", r"@std::_Rb_tree_(const_)?iterator<.*>::",
        r"@std::__detail::_(Local_)?(Const_)?(const_)?[a-zA-Z_]*iterator", r"@std::_(Rb_tree_increment|Rb_tree_decrement)"],
       [], [r"@std::(map|set|unordered_map|unordered_set|multimap|multiset|unordered_multimap|unordered_multiset|list|deque)<.*>::~"])
STREAM = ([r"@std::basic_[io]*f?(string)?stream<.*>::", r"@std::operator(<<|>>)(<.*>)?$", r"@std::(endl|setw|setprecision|setfill|hex|dec|getline|ws)(<.*>)?$",
           r"@std::basic_ios<.*>::", r"@std::ios_base::"], [], [])
PRINTF = ([r"^(printf|fprintf|snprintf|puts|putchar|fputs)$"], [], [])
VALARRAY = ([r"^std::valarray<.*>::(valarray|resize|operator=|operator[&|^!~])", r"@std::operator[&!|]"], [], [r"@std::valarray<.*>::~valarray$"])
RANDOM = ([r"@std::mersenne_twister_engine<", r"@std::uniform_(int|real)_distribution<", r"@std::(max|min)_element<?"], [], [])
PRESET = {"random": RANDOM, "vector": VECTOR, "string": STRING, "map": MAP, "stream": STREAM, "printf": PRINTF, "valarray": VALARRAY}


def options(names):
    am, op, pu = [], [], []
    for n in names:
        if n:
            a, o, p = PRESET[n]
            am += a
            op += o
            pu += p
    return {"argmem": am, "opaque": op, "pure": pu}
