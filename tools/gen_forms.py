"""Writes harness/forms.gz: every character other than Hangul syllables, of
which there is a sample, that has other forms (normal forms, other case), with
these forms. Independent of the tables of Go."""
import gzip, os, unicodedata as u
lines = []
for c in range(0x110000):
    if 0xD800 <= c < 0xE000 or (0xAC00 <= c <= 0xD7A3 and c % 37):
        continue
    ch = chr(c)
    f = {u.normalize(k, ch) for k in ('NFC', 'NFD', 'NFKC', 'NFKD')} | {ch.upper(), ch.lower(), ch.title(), ch.casefold()}
    f = sorted(x for x in f if x and x != ch and ' ' not in x)
    if f:
        lines.append(' '.join([ch] + f))
b = gzip.compress('\n'.join(lines).encode(), 9, mtime=0)
open(os.path.join(os.path.dirname(__file__), '..', 'harness', 'forms.gz'), 'wb').write(b)
print(len(lines), len(b))
