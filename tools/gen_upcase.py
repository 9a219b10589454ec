#!/usr/bin/env python3
"""Independent source of mc/src/upcase13.txt: the Unicode 13 simple uppercase mapping of the BMP.
Derived from perl's Unicode database (simple mapping and character age), cross-checked against Python's full
case conversion; nothing is read from /repo."""
import subprocess, unicodedata, os
perl = r'''
use Unicode::UCD qw(prop_invmap);
my ($l,$m,$fmt,$d)=prop_invmap("Simple_Uppercase_Mapping");
my ($al,$am)=prop_invmap("Age");
for my $c (0..0xffff){
  my $i=Unicode::UCD::search_invlist($l,$c); my $v=$m->[$i]; next if $v==0;
  my $u=$v+$c-$l->[$i];
  my $j=Unicode::UCD::search_invlist($al,$c); my $k=Unicode::UCD::search_invlist($al,$u);
  printf "%x %x %s %s\n",$c,$u,$am->[$j],$am->[$k];
}'''
out = subprocess.run(["perl", "-e", perl], capture_output=True, text=True, check=True).stdout
def age(a): return float(a.replace("V", "").replace("_", "."))
rows, later = [], []
for line in out.splitlines():
    c, u, a, b = line.split(); c, u = int(c, 16), int(u, 16)
    if c == u or u > 0xffff: continue
    # a character whose age or whose partner's age is past 13.0 had no such mapping in Unicode 13
    (later if age(a) > 13 or age(b) > 13 else rows).append((c, u))
for c, u in rows + later:            # cross-check with Python's database where the full mapping is simple
    s = chr(c).upper()
    if len(s) == 1: assert ord(s) == u, (hex(c), hex(u), s)
mapped = {c for c, _ in rows + later}
for c in range(0x10000):
    if c not in mapped and not 0xd800 <= c < 0xe000:
        s = chr(c).upper()
        assert len(s) > 1 or ord(s) == c or ord(s) > 0xffff, hex(c)
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "../mc/src/upcase13.txt"), "w") as f:
    for c, u in rows: f.write(f"{c:04x} {u:04x}\n")
print(len(rows), "mappings;", "later than 13:", [(hex(a), hex(b)) for a, b in later], unicodedata.unidata_version)
