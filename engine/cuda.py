"""Makes CUDA sources digestible: a copy of the include tree in which kernel launches, K<<<G, B>>>(ARGS), have become
calls of a template that runs all threads (harness/cuda/cuda.h). Everything else is left as it is."""
import os
import re


def strip(s):
    """comments and literals blanked out, positions kept"""
    def blank(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', blank, s, flags=re.S)


def kernel(c, i):
    """start of the (qualified, possibly templated) name which ends at i"""
    while True:
        while c[i - 1].isspace():
            i -= 1
        if c[i - 1] == '>':
            d = p = 0
            while True:
                i -= 1
                p += (c[i] in ')]') - (c[i] in '([')
                if not p and c[i] not in ')]':
                    d += (c[i] == '>') - (c[i] == '<')
                if not d and not p:
                    break
            while c[i - 1].isspace():
                i -= 1
        m = re.search(r'(?:\btemplate\s+)?[A-Za-z_]\w*$', c[:i])
        if not m:
            raise ValueError('cannot parse a kernel launch')
        i = m.start()
        m = re.search(r'::\s*$', c[:i])
        if not m:
            return i
        i = m.start()
        if not re.search(r'[\w>]\s*$', c[:i]) or re.search(r'\b(return|else|do)\s*$', c[:i]):
            return i


def rewrite(s):
    while True:
        c = strip(s)
        i = c.find('<<<')
        if i < 0:
            return s
        j = c.find('>>>', i)
        k = j + 3
        while j >= 0 and c[k:k + 1].isspace():
            k += 1
        if j < 0 or c[k:k + 1] != '(':
            raise ValueError('cannot parse a kernel launch')
        b = kernel(c, i)
        d = 0
        for e in range(k, len(c)):
            d += (c[e] == '(') - (c[e] == ')')
            if d == 0:
                break
        args = s[k + 1:e].strip()
        s = s[:b] + '::vf_cuda::launch(' + s[i + 3:j] + ').run([&](auto... vf_args) { ' + s[b:i] + '(vf_args...); }' + \
            (', ' + s[k + 1:e] if args else '') + ')' + s[e + 1:]


def tree(src, dst):
    for d, _, fs in os.walk(src):
        t = os.path.join(dst, os.path.relpath(d, src))
        os.makedirs(t, exist_ok=True)
        for f in fs:
            if not f.endswith(('.hpp', '.h')):
                continue
            p = os.path.join(d, f)
            s = open(p, encoding='utf-8', errors='replace').read()
            with open(os.path.join(t, f), 'w', encoding='utf-8') as o:
                o.write('#line 1 "%s"\n' % p + rewrite(s))
