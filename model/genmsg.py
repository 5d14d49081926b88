#!/usr/bin/env python3
"""Generates C++ message structs from /repo's .msg files (what rosidl_generator_cpp would produce)."""
import os, re, sys

PRIM = {'bool': 'bool', 'byte': 'unsigned char', 'char': 'unsigned char', 'float32': 'float',
        'float64': 'double', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int16': 'int16_t',
        'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t', 'int64': 'int64_t',
        'uint64': 'uint64_t'}


def snake(n):
    n = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', n)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n).lower()


def gen(src, out, pkg='rmw_dds_common'):
    os.makedirs(out, exist_ok=True)
    for f in sorted(os.listdir(src)):
        if not f.endswith('.msg'):
            continue
        name = f[:-4]
        inc, fields = set(), []
        for line in open(os.path.join(src, f)):
            line = line.split('#')[0].strip()
            if not line or re.match(r'^\S+\s+\w+\s*=', line):
                continue
            t, n = line.split()[:2]
            m = re.match(r'^([A-Za-z0-9_/]+)(<=\d+)?(\[(<=)?(\d*)\])?$', t)
            base, arr, bound, cnt = m.group(1), m.group(3), m.group(4), m.group(5)
            if base in PRIM:
                ct, init = PRIM[base], ' = 0'
            elif base in ('string',):
                ct, init = 'std::string', ''
            else:
                b = base.split('/')[-1]
                inc.add(snake(b))
                ct, init = '%s::msg::%s' % (pkg, b), ''
            if arr is not None:
                if cnt and not bound:
                    ct, init = 'std::array<%s, %s>' % (ct, cnt), '{}'
                else:
                    ct, init = 'std::vector<%s>' % ct, ''
            fields.append((ct, n, init))
        o = ['#pragma once', '#include <array>', '#include <cassert>', '#include <cstdint>',
             '#include <memory>', '#include <string>', '#include <vector>']
        for i in sorted(inc):
            o.append('#include "%s/msg/%s.hpp"' % (pkg, i))
        o += ['namespace %s' % pkg, '{', 'namespace msg', '{', 'struct %s' % name, '{']
        for ct, n, init in fields:
            o.append('  using _%s_type = %s;' % (n, ct))
        for ct, n, init in fields:
            o.append('  _%s_type %s%s;' % (n, n, init))
        cond = ' && '.join('%s == other.%s' % (n, n) for _, n, _ in fields) or 'true'
        o += ['  using SharedPtr = std::shared_ptr<%s>;' % name,
              '  bool operator==(const %s & other) const {return %s;}' % (name, cond),
              '  bool operator!=(const %s & other) const {return !(*this == other);}' % name,
              '};', '}  // namespace msg', '}  // namespace ' + pkg, '']
        text = '\n'.join(o)
        p = os.path.join(out, snake(name) + '.hpp')
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)


if __name__ == '__main__':
    gen(sys.argv[1], sys.argv[2])
