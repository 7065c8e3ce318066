"""Preprocessing tokens: the scanner used to read cpp's output, and rendering of token lines to source text."""
import re
TOKEN = re.compile(r'''(?P<s>L?"(?:[^"\\\n]|\\.)*")|(?P<c>L?'(?:[^'\\\n]|\\.)*')|(?P<n>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)|(?P<i>[A-Za-z_][A-Za-z_0-9]*)|
(?P<p><<=|>>=|\.\.\.|\#\#|\+\+|--|&&|\|\||<<|>>|<=|>=|==|!=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|->|//|/\*)|(?P<o>\S)''', re.X | re.S)

def scan(text): return [m.group(0) for m in TOKEN.finditer(text)]
def output_tokens(text): return scan('\n'.join(l for l in text.split('\n') if not re.match(r'\s*#\s*\d', l)))
def splits(a, b):
    """a and b written next to each other are read as these two tokens"""
    return scan(a + b) == [a, b]
def tk(t, sp, ln=0): return dict(t=list(t.encode()), sp=sp, ln=ln)

class Render:
    """collects source text; every token gets the line it stands on"""
    def __init__(self, r): self.r, self.text, self.line = r, '', 1
    def put(self, s): self.text += s; self.line += s.count('\n')
    def gap(self, comments=True, splice=True):
        r = self.r; x = r.random()
        if x < 0.72: return ' '
        if x < 0.8: return r.choice(['  ', '\t', ' \t '])
        if x < 0.9 and comments: return r.choice(['/* c */', ' /**/', '/* ) , " */ ', '/*\n*/', "/* it's */"]) if splice else r.choice(['/* c */', ' /**/'])
        if x < 0.95 and splice: return r.choice([' \\\n', '\\\n '])
        return ' '
    def tokens(self, toks, body=False, lead=True, splice=True):
        """toks: [(text, sp)] -> spec tokens; writes them with white space where sp (or needed)"""
        out = []; prev = None
        for t, sp in toks:
            need = prev is not None and not splits(prev, t)
            sp = sp or need
            if sp and (prev is not None or lead): self.put(self.gap(not body and (prev or '')[-1:] != '/', splice))
            elif prev is not None and splice and self.r.random() < 0.02: self.put('\\\n')
            out.append(tk(t, bool(sp), self.line))
            self.put(t); prev = t
        return out
