"""Writes src/hier.inc: the codes of every class hierarchy of 2-4 classes
(C0..Cn-1, each edge absent/non-virtual/virtual, every class an unambiguous base
of the last one) in which no class is a repeated base.  Code: 2 * (base 3 digits,
one per pair i < j, least significant first) + order of the bases."""
import os


def hierarchies(n):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for code in range(3 ** len(pairs)):
        e = {p: (code // 3 ** k) % 3 for k, p in enumerate(pairs)}

        def bases(j):
            return [i for i in range(j) if e[(i, j)]]

        def valid(j):
            anc, vb, st = set(), set(), [j]
            while st:
                x = st.pop()
                for i in bases(x):
                    if e[(i, x)] == 2:
                        vb.add(i)
                    if i not in anc:
                        anc.add(i)
                        st.append(i)
            if j == n - 1 and len(anc) != n - 1:
                return False

            def paths(a, i):
                if a == i:
                    return 1
                return sum(paths(b, i) for b in bases(a) if e[(b, a)] == 1)
            return all((i in vb) + sum(paths(a, i) for a in vb | {j} if a != i) <= 1
                       for i in range(j))
        if all(valid(j) for j in range(n)):
            yield code, any(len(bases(j)) > 1 for j in range(n))


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "src", "hier.inc"), "w") as f:
        f.write("// written by tools/hier.py\n")
        for n in (2, 3, 4):
            both = [2 * c + o for c, several in hierarchies(n) for o in range(1 + several)]
            one = [2 * c + (c % 2 if several else 0) for c, several in hierarchies(n)]
            for name, l in (("all", both), ("one", one)):
                f.write("constexpr int hier_%s_%d[] = {%s};\n" % (name, n, ", ".join(map(str, l))))


if __name__ == "__main__":
    main()
