"""Reference expander for macro invocations."""


class Bad(Exception):
    pass


def substitution(s):
    """from=to of $(NAME:from=to); ^ quotes a character of `to`"""
    i = s.find("=")
    if i < 0:
        raise Bad("no =")
    a, b = s[:i], s[i + 1:]
    out, k = "", 0
    while k < len(b):
        if b[k] == "^":
            k += 1
            if k < len(b):
                out += b[k]
            k += 1
            continue
        out += b[k]
        k += 1
    return a, out


def expand(s, macros, used=()):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "$" or i + 1 == len(s):
            out.append(c)
            i += 1
            continue
        n = s[i + 1]
        if n == "$":
            out.append("$")
            i += 2
        elif n == "(":
            j = i + 2
            sub = None
            while j < len(s) and s[j] not in ":)":
                j += 1
            if j >= len(s):
                raise Bad("no )")
            name = s[i + 2:j]
            if s[j] == ":":
                k = j + 1
                quoted = False
                while k < len(s) and not (s[k] == ")" and not quoted):
                    quoted = s[k] == "^" and not quoted
                    k += 1
                if k >= len(s):
                    raise Bad("no )")
                sub = substitution(s[j + 1:k])
                j = k
            if not name:
                raise Bad("no name")
            if name in used:
                raise Bad("cycle")
            v = expand(macros.get(name, ""), macros, used + (name,))
            if sub:
                v = v.replace(sub[0], sub[1])
            out.append(v)
            i = j + 1
        elif n.isalnum():
            if n in used:
                raise Bad("cycle")
            out.append(expand(macros.get(n, ""), macros, used + (n,)))
            i += 2
        else:
            raise Bad("bad invocation")
    return "".join(out)


def define(macros, name, value):
    """a definition: $(name) in the value is the old value; $$ escapes"""
    inv = "$(%s)" % name
    out, i = "", 0
    while i < len(value):
        if value.startswith(inv, i):
            out += macros.get(name, "")
            i += len(inv)
        elif value[i] == "$":
            out += value[i:i + 2]
            i += 2
        else:
            out += value[i]
            i += 1
    macros[name] = out
