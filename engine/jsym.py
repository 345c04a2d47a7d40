"""Abstract interpretation of Java methods over javap's listing: every path of a
method with its branch conditions, field updates and calls."""
import re, itertools

MAXPATHS = 300
VISITS = 2


class Method:
    def __init__(self, cls, name, desc, flags):
        self.cls, self.name, self.desc, self.flags = cls, name, desc, flags
        self.code = {}           # pc -> (op, operand text, comment)
        self.order = []
        self.handlers = []       # (from, to, target)
        self.nargs = 0

    def __getattr__(self, k):
        if k in ("static", "native", "public", "private"):
            return "ACC_" + k.upper() in self.flags
        raise AttributeError(k)

    @property
    def key(self):
        return self.name + ":" + self.desc


class Class:
    def __init__(self, name):
        self.name, self.methods, self.fields = name, {}, {}


def argtypes(desc):
    return re.findall(r"\[*(?:L[^;]*;|[BCDFIJSZ])", desc[1:desc.index(")")])


def rettype(desc):
    return desc[desc.index(")") + 1:]


def load(text):
    """{simple class name: Class}"""
    out = {}
    cls = m = None
    pend = None
    sec = None
    for line in text.splitlines():
        x = re.match(r"(?:(?:public|final|abstract|private|protected|static)\s+)*(?:class|interface|enum)\s+([\w.$]+)", line)
        if x and not line.startswith(" "):
            cls = Class(x.group(1).split(".")[-1])
            out[cls.name] = cls
            m = pend = None
            continue
        if cls is None:
            continue
        if re.match(r"  \S.*;$", line) and not line.startswith("    "):
            pend = line.strip()
            m = None
            sec = None
            continue
        if pend is not None:
            x = re.match(r"    descriptor: (\S+)", line)
            if x:
                pd = x.group(1)
                continue
            x = re.match(r"    flags: (.*)", line)
            if x:
                if pd.startswith("("):
                    nm = re.search(r"([\w$.<>]+)\(", pend)
                    nm = nm.group(1).split(".")[-1] if nm else "<clinit>"
                    if nm == cls.name:
                        nm = "<init>"
                    m = Method(cls.name, nm, pd, x.group(1))
                    cls.methods[m.key] = m
                else:
                    f = re.search(r"([\w$]+)(?: = .*)?;$", pend).group(1)
                    cls.fields[f] = {"desc": pd, "flags": x.group(1), "const": None}
                    cur = f
                    m = None
                continue
            x = re.match(r"    ConstantValue: \w+ (.*)", line)
            if x and m is None:
                cls.fields[cur]["const"] = x.group(1)
                continue
        if m is None:
            continue
        if re.match(r"      \w+", line) or re.match(r"    \w+", line):
            sec = line.strip().split(":")[0]
            continue
        x = re.match(r"\s+(\d+): (\w+)\s*([^/]*?)\s*(?://\s*(.*))?$", line)
        if x and sec and sec.startswith(("stack", "Code")):
            m.code[int(x.group(1))] = (x.group(2), x.group(3), x.group(4) or "")
            m.order.append(int(x.group(1)))
            continue
        x = re.match(r"\s+(\d+)\s+(\d+)\s+(\d+)\s+(any|Class .*)$", line)
        if x and sec == "Exception table":
            m.handlers.append((int(x.group(1)), int(x.group(2)), int(x.group(3)), x.group(4)))
        # switch cases
        x = re.match(r"\s+(-?\d+|default): (\d+)$", line)
        if x and m.order and m.code[m.order[-1]][0].endswith("switch"):
            op, a, c = m.code[m.order[-1]]
            m.code[m.order[-1]] = (op, a + " " + x.group(2), c)
    return out


class Path:
    __slots__ = ("fields", "conds", "events", "end", "caught", "murky")

    def __init__(self):
        self.fields, self.conds, self.events, self.end, self.caught, self.murky = {}, [], [], None, [], False

    def copy(self):
        p = Path()
        p.fields, p.conds, p.events, p.caught, p.murky = dict(self.fields), list(self.conds), list(self.events), list(self.caught), self.murky
        return p


NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


class Java:
    def __init__(self, text):
        self.classes = load(text)
        self.n = itertools.count()

    def run(self, m, args=None):
        """all paths of a method; args default to symbols"""
        if args is None:
            args = ([] if m.static else [("this",)]) + [("param", i) for i in range(len(argtypes(m.desc)))]
        out = []
        for p, end in self.call(m, args, Path(), ()):
            p.end = end
            out.append(p)
            if len(out) > MAXPATHS:
                break
        return out

    def call(self, m, args, path, stack):
        loc = {}
        i = 0
        ts = ([] if m.static else ["L;"]) + argtypes(m.desc)
        for a, t in zip(args, ts):
            loc[i] = a
            i += 2 if t in ("J", "D") else 1
        nxt = dict(zip(m.order, m.order[1:]))
        work = [(m.order[0], [], loc, path, {})]
        while work:
            pc, st, loc, p, seen = work.pop()
            while True:
                if seen.get(pc, 0) >= VISITS:
                    p.murky = True
                    yield p, ("cut",)
                    break
                seen = dict(seen)
                seen[pc] = seen.get(pc, 0) + 1
                op, a, cm = m.code[pc]
                r = self.step(m, pc, op, a, cm, st, loc, p, stack)
                k = r[0]
                if k == "next":
                    pc = nxt[pc]
                elif k == "goto":
                    pc = r[1]
                elif k == "branch":
                    c, t = r[1], r[2]
                    know = self.decide(p, c)
                    if know is not False:
                        q = p.copy()
                        q.conds.append(c)
                        work.append((t, list(st), dict(loc), q, seen))
                    if know is True:
                        break
                    p.conds.append((NEG[c[0]], c[1], c[2]))
                    pc = nxt[pc]
                elif k == "switch":
                    p.murky = True
                    for t in r[1]:
                        work.append((t, list(st), dict(loc), p.copy(), seen))
                    break
                elif k == "return":
                    yield p, ("return", r[1])
                    break
                elif k == "throw":
                    if not self.handle(m, pc, loc, p, seen, work, r[1]):
                        yield p, ("throw", r[1])
                    break
                elif k == "calls":
                    # the outcomes of an inlined call
                    for q, end in r[1]:
                        if end[0] == "return":
                            s2 = list(st)
                            if end[1] is not None:
                                s2.append(end[1])
                            work.append((nxt[pc], s2, dict(loc), q, seen))
                        elif end[0] == "throw":
                            if not self.handle(m, pc, loc, q, seen, work, end[1]):
                                yield q, end
                        else:
                            yield q, end
                    break
                elif k == "extern":
                    # an opaque call: it returns, or it throws into a handler of this method
                    for h in m.handlers:
                        if h[0] <= pc < h[1]:
                            q = p.copy()
                            q.caught.append((h[3], r[1]))
                            work.append((h[2], [("exc", next(self.n))], dict(loc), q, seen))
                    pc = nxt[pc]

    def handle(self, m, pc, loc, p, seen, work, v):
        for h in m.handlers:
            if h[0] <= pc < h[1]:
                exact = h[3] == "any" or (v[0] == "new" and h[3].split()[-1].split("/")[-1] in (v[1].split("/")[-1], "Throwable", "Exception", "RuntimeException"))
                q = p.copy()
                q.caught.append((h[3], v))
                work.append((h[2], [v], dict(loc), q, seen))
                if exact:
                    return True
        return False

    def decide(self, p, c):
        op, a, b = c
        if a[0] == "const" and b[0] == "const" and isinstance(a[1], int) and isinstance(b[1], int):
            return {"eq": a[1] == b[1], "ne": a[1] != b[1], "lt": a[1] < b[1], "ge": a[1] >= b[1], "gt": a[1] > b[1], "le": a[1] <= b[1]}[op]
        if a == b and a[0] != "exc":
            return op in ("eq", "ge", "le")
        if c in p.conds:
            return True
        if (NEG[op], a, b) in p.conds:
            return False
        if b == ("const", None) and (a[0] == "new" or a[0] == "this"):
            return op == "ne"
        return None

    def step(self, m, pc, op, a, cm, st, loc, p, stack):
        pop, push = st.pop, st.append
        x = re.match(r"([ailfd])(load|store)(?:_(\d))?$", op)
        if x:
            i = int(x.group(3) if x.group(3) is not None else a)
            if x.group(2) == "load":
                push(loc.get(i, ("unset",)))
            else:
                loc[i] = pop()
            return ("next",)
        x = re.match(r"[ilfd]const_(m1|\d)$", op)
        if x:
            push(("const", -1 if x.group(1) == "m1" else int(x.group(1))))
            return ("next",)
        if op in ("bipush", "sipush"):
            push(("const", int(a)))
        elif op == "aconst_null":
            push(("const", None))
        elif op in ("ldc", "ldc_w", "ldc2_w"):
            y = re.match(r"(?:int|long) (-?\d+)", cm)
            push(("const", int(y.group(1)) if y else cm))
        elif op == "getfield" or op == "getstatic":
            o = pop() if op == "getfield" else ("static",)
            f = cm.replace("Field ", "").split(":")[0]
            push(p.fields.get((o, f), ("field", o, f)))
            p.events.append(("get", o, f))
        elif op == "putfield" or op == "putstatic":
            v = pop()
            o = pop() if op == "putfield" else ("static",)
            f = cm.replace("Field ", "").split(":")[0]
            p.fields[(o, f)] = v
            p.events.append(("put", o, f, v, len(p.conds)))
        elif op == "new":
            push(("new", cm.replace("class ", ""), next(self.n)))
        elif op == "dup":
            push(st[-1])
        elif op == "dup2":
            # a two-word value is one entry here
            push(st[-1])
        elif op == "dup_x1":
            v, w = pop(), pop()
            st.extend((v, w, v))
        elif op in ("dup2_x1", "dup_x2"):
            v, w = pop(), pop()
            st.extend((v, w, v))
        elif op in ("pop", "pop2"):
            if st:
                pop()
        elif op == "swap":
            v, w = pop(), pop()
            st.extend((v, w))
        elif op == "lcmp":
            b, c = pop(), pop()
            push(("cmp", c, b))
        elif re.match(r"if(eq|ne|lt|ge|gt|le)$", op):
            v = pop()
            o = op[2:]
            c = (o, v[1], v[2]) if v[0] == "cmp" else (o, v, ("const", 0))
            return ("branch", c, int(a))
        elif re.match(r"if_[ia]cmp(eq|ne|lt|ge|gt|le)$", op):
            b, c = pop(), pop()
            return ("branch", (op[-2:], c, b), int(a))
        elif op in ("ifnull", "ifnonnull"):
            return ("branch", ("eq" if op == "ifnull" else "ne", pop(), ("const", None)), int(a))
        elif op in ("goto", "goto_w"):
            return ("goto", int(a))
        elif op.endswith("switch"):
            pop()
            return ("switch", [int(y) for y in re.findall(r"\d+", a.split("}")[-1] if "}" in a else a)])
        elif op == "return":
            return ("return", None)
        elif re.match(r"[ailfd]return$", op):
            return ("return", pop())
        elif op == "athrow":
            return ("throw", pop())
        elif op in ("monitorenter", "monitorexit"):
            p.events.append((op, pop()))
        elif op == "checkcast":
            pass
        elif op in ("arraylength",):
            push(("length", pop()))
        elif op in ("instanceof",):
            push(("instanceof", pop(), cm))
        elif op in ("newarray", "anewarray"):
            push(("newarray", pop(), cm or a, next(self.n)))
        elif re.match(r"[abcdfils]aload$", op):
            i, o = pop(), pop()
            push(("at", o, i))
        elif re.match(r"[abcdfils]astore$", op):
            v, i, o = pop(), pop(), pop()
            p.events.append(("aput", o, i, v))
        elif op == "iinc":
            i, d = [int(y) for y in a.split(",")]
            loc[i] = ("add", loc.get(i, ("unset",)), ("const", d))
        elif re.match(r"[ilfd](add|sub|mul|div|rem|and|or|xor|shl|shr|ushr)$", op):
            b, c = pop(), pop()
            push((op[1:], c, b))
        elif re.match(r"[ilfd](neg)$", op) or re.match(r"[ilfd]2[bcdfils]$", op):
            push((op, pop()))
        elif op.startswith("invoke"):
            return self.invoke(m, pc, op, cm, st, p, stack)
        elif op == "nop":
            pass
        else:
            p.murky = True
            push(("?", op))
        return ("next",)

    def invoke(self, m, pc, op, cm, st, p, stack):
        y = re.match(r'(?:Interface)?Method (?:([\w/$\[;]+)\.)?("?<?[\w$]+>?"?):(\S+)', cm)
        if not y:
            y2 = re.search(r":(\([^)]*\)\S+)$", cm)
            desc = y2.group(1) if y2 else "()V"
            n = len(argtypes(desc))
            args = [st.pop() for _ in range(n)][::-1]
            r = ("call", cm, tuple(args), next(self.n))
            if rettype(desc) != "V":
                st.append(r)
            p.events.append(("call", cm, tuple(args), r))
            return ("extern", r)
        owner, name, desc = y.group(1), y.group(2).strip('"'), y.group(3)
        n = len(argtypes(desc))
        args = [st.pop() for _ in range(n)][::-1]
        if op not in ("invokestatic", "invokedynamic"):
            args.insert(0, st.pop())
        cls = (owner or m.cls).split("/")[-1]
        callee = self.classes.get(cls, None)
        callee = callee.methods.get(name + ":" + desc) if callee else None
        if callee is not None and callee.code and len(stack) < 6 and callee.key not in stack and self.inline(callee):
            return ("calls", list(self.call(callee, args, p, stack + (callee.key,))))
        r = ("call", cls + "." + name, tuple(args), next(self.n), bool(callee is not None and callee.native))
        if rettype(desc) != "V":
            st.append(r)
        p.events.append(("call", cls + "." + name, tuple(args), r))
        return ("extern", r)

    def inline(self, m):
        """only methods that deal with fields, natives or exceptions of their own class; library loading stays opaque"""
        return self.relevant(m, ())

    def relevant(self, m, seen):
        if m.key in seen:
            return False
        for pc in m.order:
            op, a, cm = m.code[pc]
            if op in ("getfield", "putfield"):
                return True
            if op.startswith("invoke"):
                y = re.match(r'Method (?:([\w/$]+)\.)?("?<?[\w$]+>?"?):(\S+)', cm)
                if y and (y.group(1) is None or y.group(1).split("/")[-1] in self.classes):
                    c = self.classes[(y.group(1) or m.cls).split("/")[-1]].methods.get(y.group(2).strip('"') + ":" + y.group(3))
                    if c is not None and (c.native or (c.code and self.relevant(c, seen + (m.key,)))):
                        return True
        return len(m.order) <= 12


def show(t):
    if t is None:
        return "nothing"
    k = t[0]
    if k == "param":
        return "argument %d" % (t[1] + 1)
    if k == "const":
        return str(t[1])
    if k == "field":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k in ("this", "static"):
        return k
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t))
