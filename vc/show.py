import sys, cast
def pr(n, d=0, out=None, maxd=40):
    if not isinstance(n, dict) or not n.get('kind'):
        return
    k = n['kind']
    if 'Comment' in k: return
    s = '  '*d + k
    for f in ('name','opcode','castKind','value','isPostfix','valueCategory'):
        if f in n and not (f=='valueCategory' and n[f]=='prvalue'): s += ' %s=%s' % (f, n[f])
    if 'type' in n: s += ' <%s>' % cast.norm_type(cast.qt(n))[:80]
    if 'referencedDecl' in n: s += ' ->%s %s %s' % (n['referencedDecl'].get('kind'), n['referencedDecl'].get('name'), n['referencedDecl'].get('id'))
    if 'referencedMemberDecl' in n: s += ' mem=%s' % n['referencedMemberDecl']
    if 'anyInit' in n: s += ' anyInit=%s' % n['anyInit'].get('name')
    if 'ctorType' in n: s += ' ctor=%s' % n['ctorType']['qualType']
    print(s)
    for c in n.get('inner', []): pr(c, d+1)
if __name__=='__main__':
    P = cast.load()
    for f in P.by_key.get(sys.argv[1], []):
        g = P.defs.get(f.id)
        if g: print('==', g.sig); pr(g.node)
