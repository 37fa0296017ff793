#!/usr/bin/env python3
"""Generate C++ structs for ROS interface definitions (external ones from
stubs/msgs.txt, the repository's own from its .msg/.srv files)."""
import os, re, sys, glob

PRIM = {'bool': 'bool', 'byte': 'uint8_t', 'char': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t',
        'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t',
        'int64': 'int64_t', 'uint64': 'uint64_t', 'float32': 'float', 'float64': 'double',
        'string': 'std::string'}


def snake(n):
    n = re.sub(r'([A-Z]+)([A-Z][a-z])', r'\1_\2', n)
    n = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n)
    return n.lower()


def parse_fields(lines, pkg):
    consts, fields, deps = [], [], set()
    for l in lines:
        l = l.split('#')[0].strip() if '"' not in l else l.strip()
        if not l:
            continue
        m = re.match(r'^([A-Za-z0-9_/]+)(<=\d+)?(\[[^\]]*\])?\s+(.*)$', l)
        if not m:
            raise SystemExit('bad line ' + l)
        ty, _, arr, rest = m.groups()
        if ty in PRIM:
            cty = PRIM[ty]
        else:
            p, n = ty.split('/') if '/' in ty else (pkg, ty)
            if '/' in ty and ty.count('/') == 2:
                p, _, n = ty.split('/')
            deps.add((p, n))
            cty = f'::{p}::msg::{n}'
        mc = re.match(r'^([A-Z][A-Z0-9_]*)\s*=\s*(.*)$', rest)
        if mc:
            consts.append((cty, mc.group(1), mc.group(2)))
            continue
        parts = rest.split(None, 1)
        name, default = parts[0], (parts[1] if len(parts) > 1 else None)
        if arr:
            k = arr[1:-1]
            cty = f'std::vector<{cty}>' if not k or k.startswith('<=') else f'std::array<{cty}, {k}>'
            default = None
        fields.append((cty, name, default))
    return consts, fields, deps


def struct(name, lines, pkg, pad='  ', builder=False):
    consts, fields, deps = parse_fields(lines, pkg)
    o = [f'struct {name}', '{', f'  using SharedPtr = std::shared_ptr<{name}>;',
         f'  using ConstSharedPtr = std::shared_ptr<const {name}>;', f'  using UniquePtr = std::unique_ptr<{name}>;']
    if not name.endswith(('_Request', '_Response')):
        o.append(f'  explicit {name}(rosidl_runtime_cpp::MessageInitialization = rosidl_runtime_cpp::MessageInitialization::ALL) {{}}')
    for t, n, v in consts:
        if t == 'std::string':
            o.append(f'  static inline const std::string {n} = {v};'.replace("'", '"'))
        else:
            o.append(f'  static constexpr {t} {n} = {v};')
    for t, n, d in fields:
        o.append(f'  {t} {n}' + (f'{{{d}}};' if d else '{};'))
        o.append(f'  using _{n}_type = {t};')
        o.append(f'  {name} & set__{n}(const {t} & arg) {{ this->{n} = arg; return *this; }}')
    ops = ' && '.join(f'a.{n} == b.{n}' for _, n, _ in fields) or 'true'
    o.append(f'  friend bool operator==(const {name} & a, const {name} & b) {{ (void)a; (void)b; return {ops}; }}')
    o.append(f'  friend bool operator!=(const {name} & a, const {name} & b) {{ return !(a == b); }}')
    o.append('};')
    if builder:
        o.append('namespace builder')
        o.append('{')
        for i in range(len(fields) - 1, -1, -1):
            t, n, _ = fields[i]
            ret = name if i == len(fields) - 1 else f'Init_{name}_{fields[i + 1][1]}'
            o.append(f'class Init_{name}_{n}')
            o.append('{')
            if i == 0:
                o.append(f'public: Init_{name}_{n}() {{}}')
            else:
                o.append(f'public: explicit Init_{name}_{n}({name} & msg) : msg_(msg) {{}}')
            if i == len(fields) - 1:
                o.append(f'  {name} {n}({t} arg) {{ msg_.{n} = std::move(arg); return std::move(msg_); }}')
            else:
                o.append(f'  {ret} {n}({t} arg) {{ msg_.{n} = std::move(arg); return {ret}(msg_); }}')
            o.append(f'private: {name} msg_;')
            o.append('};')
        o.append('}')
    return '\n'.join(pad + x for x in o), deps


HEAD = '#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <utility>\n#include <vector>\n#include <rosidl_runtime_cpp/message_initialization.hpp>\n'


def emit(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)


def main(repo, ext, out):
    items = []  # kind, pkg, name, lines
    cur = None
    for l in open(ext):
        l = l.rstrip('\n')
        m = re.match(r'^(srv )?([a-z0-9_]+)/([A-Z]\w*)$', l)
        if m:
            cur = ['srv' if m.group(1) else 'msg', m.group(2), m.group(3), []]
            items.append(cur)
        elif cur is not None and not l.startswith('#'):
            cur[3].append(l)
    for kind in ('msg', 'srv'):
        for f in glob.glob(f'{repo}/**/{kind}/*.{kind}', recursive=True):
            if '/_build/' in f:
                continue
            pkg = f.split('/')[-3]
            items.append([kind, pkg, os.path.basename(f)[:-4], open(f).read().split('\n')])
    for kind, pkg, name, lines in items:
        if kind == 'msg':
            body, deps = struct(name, lines, pkg, builder=True)
            body = f'namespace {pkg}::msg\n{{\n{body}\n}}\n'
            first = parse_fields(lines, pkg)[1]
            if first:
                body += (f'namespace {pkg}\n{{\ntemplate <typename MessageType> auto build();\n'
                         f'template <> inline auto build<::{pkg}::msg::{name}>() '
                         f'{{ return {pkg}::msg::builder::Init_{name}_{first[0][1]}(); }}\n}}\n')
        else:
            k = [i for i, l in enumerate(lines) if l.strip() == '---']
            k = k[0] if k else len(lines)
            b1, d1 = struct(name + '_Request', lines[:k], pkg)
            b2, d2 = struct(name + '_Response', lines[k + 1:], pkg)
            deps = d1 | d2
            body = (f'namespace {pkg}::srv\n{{\n{b1}\n{b2}\n  struct {name}\n  {{\n    using Request = {name}_Request;\n'
                    f'    using Response = {name}_Response;\n  }};\n}}\n')
        inc = ''.join(f'#include <{p}/msg/{snake(n)}.hpp>\n' for p, n in sorted(deps))
        emit(f'{out}/{pkg}/{kind}/{snake(name)}.hpp', HEAD + inc + body)
    print(len(items), 'interfaces')


if __name__ == '__main__':
    main(*sys.argv[1:])
