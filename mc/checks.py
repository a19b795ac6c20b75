CHECKS = {
 'C01': dict(src='c01.cpp'),
 'C02': dict(src='c02.cpp'),
 'C03': dict(src='c03.cpp'),
 'C04': dict(src='c04.cpp'),
 'C05': dict(src='c05.cpp'),
 'C06': dict(src='c06.cpp'),
 'C07': dict(src='c07.cpp'),
 'C08': dict(src='c08.cpp'),
 'C09': dict(src='c09.cpp'),
 'C10': dict(src='c10.cpp'),
 'C11': dict(src='c09.cpp', flags=['-DPARAMS']),
 'C12': dict(src='c12.cpp'),
 'C13': dict(src='c13.cpp', san=True),
 'C14': dict(src='c14.cpp', san=True),
 'C15': dict(src='c15.cpp'),
 'C16': dict(src='c16.cpp', san=True),
 'C17': dict(src='c17.cpp', compile_is_property=True),
 'C18': dict(src='c18.cpp'),
 'C19': dict(src='c19.cpp'),
 'C20': dict(src='c08.cpp', flags=['-DAMBIG']),
 'C21': dict(runner='c21'),
 'C22': dict(src='c22.cpp'),
 'C23': dict(src='c23.cpp'),
 'C24': dict(src='c24.cpp', instr=True),
}
ASSUME = [
 'the reference model in mc/ref.hpp states RFC 3986 and the header documentation correctly (DESIGN.md section 3 lists the readings taken)',
 'states are counted by a hash bitmap, so their number is a lower bound; un-merged histories, not states, are what is enumerated',
 'arguments do not alias the URL they are passed to, and iterators are not used after an edit invalidated them',
]
EXTRA = {
 'C07': ['an allocation fails by throwing from the allocator or operator new; nothing else in the library can fail'],
 'C14': ['blocks of zero bytes need no storage of their own'],
 'C15': ['the library consults the locale only through tolower and toupper'],
 'C21': ['only the compilers and standard libraries installed here are compared (gcc 13, clang 18 with libstdc++)'],
 'C24': ['library code synchronises only through the primitives the scheduler wraps; accesses are sequentially consistent once data-race free'],
}
for k_, v_ in EXTRA.items():
    CHECKS[k_]['assume'] = v_
