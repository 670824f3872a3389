"""Hash of the IR reachable from each scenario, to see which scenarios a change can affect at all (development aid)."""
import re, subprocess, hashlib


def parse(bc):
    t = subprocess.run(['opt-18', '-passes=strip', '-S', bc, '-o', '-'], capture_output=True, text=True).stdout
    # keep names: -passes=strip removes local names and debug info only
    defs = {}
    cur = None
    for l in t.split('\n'):
        if cur is None:
            m = re.match(r'define .*?@("[^"]+"|[\w.$]+)\(', l)
            if m:
                cur = m.group(1)
                buf = [l]
                continue
            m = re.match(r'@("[^"]+"|[\w.$]+) = ', l)
            if m:
                defs[m.group(1)] = l
        else:
            buf.append(l)
            if l == '}':
                defs[cur] = '\n'.join(buf)
                cur = None
    out = {}
    for k, v in defs.items():
        v = re.sub(r'(, )?![\w.]+( !\d+)?', '', v)
        v = re.sub(r'#\d+', '', v)
        out[k] = (hashlib.md5(v.encode()).hexdigest(), set(re.findall(r'@("[^"]+"|[\w.$]+)', v)) - {k})
    return out


def scns(bc, names):
    d = parse(bc)
    res = {}
    for n in names:
        seen = {n}
        st = [n]
        while st:
            x = st.pop()
            for y in d.get(x, ('', ()))[1]:
                if y in d and y not in seen:
                    seen.add(y)
                    st.append(y)
        res[n] = hashlib.md5(' '.join(sorted(x + d[x][0] for x in seen if x in d)).encode()).hexdigest()
    return res
