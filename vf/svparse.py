"""Parser for the SystemVerilog that the translation emits (and the memory
wrapper shipped with the repository): packed structs, modules, localparams,
always_comb, always_ff, continuous assignments, instances, static loops and
generate-if.  Anything else is refused."""
import re


class SvUnsupported(Exception):
  pass


TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/|`[^\n]*)
 |(?P<num>\d*'[sS]?[bdhoBDHO]\s*[0-9a-fA-F_xXzZ]+|'[01xz]\b|\d[\d_]*)
 |(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
 |(?P<str>"[^"]*")
 |(?P<op><<<|>>>|===|!==|<<=|>>=|\*\*|<=|>=|==|!=|&&|\|\||<<|>>|\+=|-=|\+:|-:|\+\+|--|~\^|\^~|~&|~\||'\{|'\(|[-+*/%&|^~!<>=?:;,.(){}\[\]@\#'])
""", re.X | re.S)


def tokens(text):
  out, i, line = [], 0, 1
  while i < len(text):
    m = TOK.match(text, i)
    if not m: raise SvUnsupported(f"line {line}: {text[i:i + 20]!r}")
    k = m.lastgroup
    if k != 'ws': out.append((k, m.group(), line))
    line += m.group().count('\n')
    i = m.end()
  out.append(('eof', '', line))
  return out


BIN = [['||'], ['&&'], ['|'], ['^', '~^', '^~'], ['&'], ['==', '!=', '===', '!=='], ['<', '<=', '>', '>='],
       ['<<', '>>', '<<<', '>>>'], ['+', '-'], ['*', '/', '%'], ['**']]


class Parser:
  def __init__(s, text):
    s.t = tokens(text)
    s.i = 0
    s.types = {}        # name -> [(field, type)]
    s.modules = {}

  # -- basics
  def pk(s, k=0): return s.t[s.i + k][1]
  def kind(s, k=0): return s.t[s.i + k][0]
  def nx(s):
    x = s.t[s.i][1]
    s.i += 1
    return x
  def bad(s, why=''):
    k, x, l = s.t[s.i]
    raise SvUnsupported(f"line {l}: {why} at {x!r}")
  def ex(s, x):
    if s.pk() != x: s.bad(f"expected {x!r}")
    return s.nx()
  def acc(s, x):
    if s.pk() == x and s.kind() != 'str':
      s.i += 1
      return True
    return False
  def ident(s):
    if s.kind() != 'id': s.bad("identifier")
    return s.nx()

  # -- source text
  def parse(s):
    while s.kind() != 'eof':
      if s.pk() == 'typedef': s.typedef()
      elif s.pk() == 'module': s.module()
      elif s.acc(';'): pass
      else: s.bad("item")
    return s

  def typedef(s):
    s.ex('typedef'); s.ex('struct'); s.ex('packed'); s.ex('{')
    fs = []
    while not s.acc('}'):
      t = s.dtype()
      while True:
        n = s.ident()
        if s.pk() == '[': s.bad("unpacked member")
        fs.append((n, t))
        if not s.acc(','): break
      s.ex(';')
    name = s.ident()
    s.ex(';')
    old = s.types.get(name)
    if old is not None and old != fs: s.bad("type defined twice")
    s.types[name] = fs

  def is_type(s):
    return s.pk() in ('logic', 'wire', 'reg', 'bit', 'int', 'integer') or s.pk() in s.types

  def dtype(s):
    """('vec', [(hi, lo)...], signed) | ('named', name, [(hi, lo)...])"""
    x = s.nx()
    if x in ('int', 'integer'):
      u = s.acc('unsigned')
      s.acc('signed')
      return ('vec', [(('num', 32, 31, True), ('num', 32, 0, True))], not u)
    sg = False
    if x in ('logic', 'wire', 'reg', 'bit'):
      if x == 'wire': s.acc('logic')
      if s.acc('signed'): sg = True
      s.acc('unsigned')
      if s.pk() in s.types: 
        n = s.nx()
        return ('named', n, s.dims())
      return ('vec', s.dims(), sg)
    if x in s.types: return ('named', x, s.dims())
    s.i -= 1
    s.bad("type")

  def dims(s):
    out = []
    while s.acc('['):
      a = s.expr()
      if s.acc(':'):
        b = s.expr()
        out.append((a, b))
      else: out.append((('num', 32, 0, True), ('bin', '-', a, ('num', 32, 1, True))))
      s.ex(']')
    return out

  # -- modules
  def module(s):
    s.ex('module')
    name = s.ident()
    m = dict(name=name, params=[], ports=[], decls=[], items=[])
    if s.acc('#'):
      s.ex('(')
      while not s.acc(')'):
        s.acc('parameter')
        if s.is_type(): s.dtype()
        n = s.ident()
        s.ex('=')
        m['params'].append((n, s.expr()))
        s.acc(',')
    if s.acc('('):
      d, t = None, None
      while not s.acc(')'):
        if s.pk() in ('input', 'output', 'inout'):
          d = s.nx()
          if d == 'inout': s.bad("inout")
          if s.is_type(): t = s.dtype()
          else: t = ('vec', s.dims(), False)
        n = s.ident()
        u = s.dims()
        m['ports'].append((d, n, t, u))
        s.acc(',')
    s.ex(';')
    m['items'] = s.items(('endmodule',))
    s.nx()
    if s.acc(':'): s.ident()
    s.modules.setdefault(name, []).append(m)

  def items(s, end):
    out = []
    while s.pk() not in end:
      out += s.item()
    return out

  def item(s):
    x = s.pk()
    if x == ';':
      s.nx()
      return []
    if x in ('localparam', 'parameter'):
      s.nx()
      t = s.dtype() if s.is_type() else None
      out = []
      while True:
        n = s.ident()
        d = s.dims()
        s.ex('=')
        out.append(('param', n, t, d, s.expr_or_pattern()))
        if not s.acc(','): break
      s.ex(';')
      return out
    if x == 'assign':
      s.nx()
      out = []
      while True:
        l = s.expr(lv=True)
        s.ex('=')
        out.append(('assign', l, s.expr(), s.t[s.i][2]))
        if not s.acc(','): break
      s.ex(';')
      return out
    if x == 'always_comb':
      s.nx()
      return [('comb', s.stmt())]
    if x == 'always_ff':
      s.nx()
      s.ex('@'); s.ex('('); s.ex('posedge')
      clk = s.expr()
      s.ex(')')
      return [('ff', clk, s.stmt())]
    if x == 'always':
      s.nx()
      s.ex('@')
      if s.acc('*'): return [('comb', s.stmt())]
      s.ex('(')
      if s.acc('*'):
        s.ex(')')
        return [('comb', s.stmt())]
      s.ex('posedge')
      clk = s.expr()
      s.ex(')')
      return [('ff', clk, s.stmt())]
    if x == 'generate':
      s.nx()
      out = s.items(('endgenerate',))
      s.nx()
      return out
    if x == 'if': return [s.gen_if()]
    if x == 'begin':
      s.nx()
      n = s.ident() if s.acc(':') else None
      out = s.items(('end',))
      s.nx()
      return [('genblk', n, out)]
    if x in ('initial', 'genvar', 'function', 'task', 'for', 'case', 'assert', 'property'): s.bad("item")
    if s.is_type():
      t = s.dtype()
      out = []
      while True:
        n = s.ident()
        u = s.dims()
        init = s.expr() if s.acc('=') else None
        out.append(('var', n, t, u, init))
        if not s.acc(','): break
      s.ex(';')
      return out
    if s.kind() == 'id': return [s.instance()]
    s.bad("item")

  def gen_if(s):
    s.ex('if'); s.ex('(')
    c = s.expr()
    s.ex(')')
    a = s.item()
    b = s.item() if s.acc('else') else []
    return ('genif', c, a, b)

  def instance(s):
    mod = s.ident()
    pars = s.conns() if s.acc('#') else []
    name = s.ident()
    if s.pk() == '[': s.bad("instance array")
    c = s.conns()
    s.ex(';')
    return ('inst', mod, pars, name, c)

  def conns(s):
    s.ex('(')
    out = []
    while not s.acc(')'):
      if s.acc('.'):
        if s.acc('*'): s.bad(".*")
        n = s.ident()
        if s.acc('('):
          e = None if s.pk() == ')' else s.expr()
          s.ex(')')
        else: e = ('id', n)
        out.append((n, e))
      else: out.append((None, s.expr()))
      s.acc(',')
    return out

  # -- statements
  def stmt(s):
    x = s.pk()
    if x == ';':
      s.nx()
      return ('seq', [])
    if x == 'begin':
      s.nx()
      if s.acc(':'): s.ident()
      out = []
      while not s.acc('end'):
        if s.is_type():
          t = s.dtype()
          while True:
            n = s.ident()
            u = s.dims()
            out.append(('local', n, t, u, s.expr() if s.acc('=') else None))
            if not s.acc(','): break
          s.ex(';')
        else: out.append(s.stmt())
      if s.acc(':'): s.ident()
      return ('seq', out)
    if x in ('unique', 'priority'): s.bad("statement")
    if x == 'if':
      s.nx(); s.ex('(')
      c = s.expr()
      s.ex(')')
      a = s.stmt()
      b = s.stmt() if s.acc('else') else None
      return ('if', c, a, b)
    if x == 'for':
      s.nx(); s.ex('(')
      t = s.dtype() if s.is_type() else None
      if t is None: s.bad("loop variable")
      n = s.ident()
      s.ex('=')
      a = s.expr()
      s.ex(';')
      c = s.expr()
      s.ex(';')
      st = s.assignment()
      s.ex(')')
      return ('for', n, t, a, c, st, s.stmt())
    if x in ('case', 'casez', 'casex', 'while', 'forever', 'repeat', 'return', 'break', 'continue'): s.bad("statement")
    if x.startswith('$'): s.bad("system task")
    a = s.assignment()
    s.ex(';')
    return a

  def assignment(s):
    line = s.t[s.i][2]
    l = s.expr(lv=True)
    x = s.nx()
    if x in ('=', '<='): return ('asg', x, l, s.expr(), line)
    if x in ('+=', '-='): return ('asg', '=', l, ('bin', x[0], l, s.expr()), line)
    if x in ('++', '--'): return ('asg', '=', l, ('bin', x[0], l, ('num', 32, 1, True)), line)
    s.i -= 1
    s.bad("assignment")

  # -- expressions
  def expr(s, lv=False):
    if lv: return s.primary()
    return s.cond()

  expr_or_pattern = lambda s: s.pattern() if s.pk() == "'{" else s.expr()

  def pattern(s):
    s.ex("'{")
    xs = []
    while not s.acc('}'):
      xs.append(s.expr_or_pattern())
      s.acc(',')
    return ('pat', xs)

  def cond(s):
    c = s.binary(0)
    if s.acc('?'):
      a = s.cond()
      s.ex(':')
      return ('cond', c, a, s.cond())
    return c

  def binary(s, p):
    if p == len(BIN): return s.unary()
    a = s.binary(p + 1)
    while s.kind() == 'op' and s.pk() in BIN[p]:
      op = s.nx()
      a = ('bin', op, a, s.binary(p + 1))
    return a

  def unary(s):
    if s.kind() == 'op' and s.pk() in ('~', '!', '-', '+', '&', '|', '^', '~&', '~|', '~^', '^~'):
      op = s.nx()
      return ('un', op, s.unary())
    return s.primary()

  def primary(s):
    k, x, _ = s.t[s.i]
    if k == 'num':
      s.nx()
      e = number(x)
      if s.pk() == "'(":
        s.nx()
        a = s.expr()
        s.ex(')')
        e = ('cast', e, a)
      return s.post(e)
    if x == '(':
      s.nx()
      e = s.expr()
      s.ex(')')
      if s.pk() == "'(":
        s.nx()
        a = s.expr()
        s.ex(')')
        return s.post(('cast', e, a))
      return s.post(e)
    if x == '{':
      s.nx()
      a = s.expr()
      if s.acc('{'):
        xs = [s.expr()]
        while s.acc(','): xs.append(s.expr())
        s.ex('}'); s.ex('}')
        return s.post(('rep', a, ('cat', xs)))
      xs = [a]
      while s.acc(','): xs.append(s.expr())
      s.ex('}')
      return s.post(('cat', xs))
    if k == 'id':
      s.nx()
      if x.startswith('$'):
        s.ex('(')
        a = [s.expr()]
        while s.acc(','): a.append(s.expr())
        s.ex(')')
        return ('call', x, a)
      if s.pk() == "'(":
        s.nx()
        a = s.expr()
        s.ex(')')
        if x in s.types: return s.post(('tcast', x, a))
        return s.post(('cast', ('id', x), a))
      return s.post(('id', x))
    s.bad("expression")

  def post(s, e):
    while True:
      if s.acc('['):
        a = s.expr()
        if s.acc(':'): e = ('slice', e, a, s.expr())
        elif s.pk() in ('+:', '-:'):
          op = s.nx()
          e = ('psl', e, a, op, s.expr())
        else: e = ('idx', e, a)
        s.ex(']')
      elif s.pk() == '.' and s.kind(1) == 'id':
        s.nx()
        e = ('mem', e, s.ident())
      else: return e


def number(x):
  """('num', width or None, value, signed)"""
  x = x.replace('_', '')
  if "'" not in x: return ('num', None, int(x), True)
  w, r = x.split("'")
  if r in '01': return ('fill', int(r))
  sg = r[0] in 'sS'
  if sg: r = r[1:]
  base = dict(b=2, d=10, h=16, o=8)[r[0].lower()]
  d = r[1:].strip()
  if re.search('[xXzZ?]', d): raise SvUnsupported("x in a number")
  n = int(w) if w.strip() else None
  v = int(d, base)
  return ('num', n, v & ((1 << n) - 1) if n else v, sg)
