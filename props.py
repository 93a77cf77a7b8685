# What each property's check runs: harness, code under test, bounds per tier.
def J(name, harness, target, quick=None, thorough=None, reach=(), bounds=None, **kw):
    quick = quick or {}
    d = dict(name=name, harness=harness, target=target, quick=quick, thorough=dict(quick, **(thorough or {})), reach=list(reach), bounds=bounds or {})
    d.update(kw); return d
SCL = 'sctk:sclite.c'
PROPS = {
 'C01': dict(jobs=[
   J('one-letter', 'c01.c', SCL, dict(NR=5, NH=4, MINR=0, MINH=0, LEN=1, LAST="'h'"), dict(NR=5, NH=5), ['sub', 'ins', 'del', 'end']),
   J('two-letter', 'c01.c', SCL, dict(NR=2, NH=2, MINR=1, MINH=1, LEN=2, LAST="'d'"), dict(NR=3, NH=2), ['sub', 'ins', 'del', 'end']),
   J('history', 'c01.c', SCL, dict(NU=3, NR=2, NH=2, MINR=0, MINH=1, LEN=1, LAST="'b'"), dict(MINH=0, LAST="'c'"), ['sub', 'ins', 'del', 'end']),
   J('large', 'c01.c', SCL, dict(NU=4, PADS='{1,2},{112,3},{2,115},{3,3}', NR=2, NH=1, MINR=1, MINH=0, LEN=1, LAST="'b'"), dict(NH=2), ['sub', 'ins', 'del', 'end']),
   J('square', 'c01.c', SCL, dict(NU=1, PADS='{24,26}', NR=2, NH=2, MINR=2, MINH=2, LEN=1, LAST="'d'"), dict(NR=3), ['sub', 'ins', 'end']),
   J('long-words', 'c01.c', SCL, dict(LONG=200, STEM='"thequickbrownfoxjumpsoverthelazydogandthequickbrownfoxjumpsoverthelazydog"', TAIL='"ing"', NR=2, NH=2, MINR=1, MINH=1, LEN=2, LAST="'c'"), dict(NR=3), ['sub', 'ins', 'del', 'end']),
   J('characters', 'c01.c', SCL, dict(CHARS=1, SENS=1, FIRST="'!'", NR=2, NH=2, MINR=1, MINH=1, LEN=2, LAST="'~'"), dict(NR=3), ['sub', 'ins', 'del', 'end']),
 ]),
 'C02': dict(jobs=[
   J('order', 'c02.c', SCL, dict(N=3, NSPK=2, SEP="'_'", IDT='"rm"'), dict(N=4), ['end']),
   J('form', 'c02.c', SCL, dict(N=2, NSPK=2, SEP="'-'", IDT='"swb"', FORM=1), dict(N=3), ['end']),
   J('fault', 'c02.c', SCL, dict(N=2, NSPK=2, SEP="'_'", IDT='"spu_id"', FAULT=1), dict(N=3), ['end', 'refused']),
   J('case', 'c02.c', SCL, dict(N=2, NSPK=2, SEP="'_'", IDT='"spu_id"', CASE=1), {}, ['end', 'refused']),
   J('prefixes', 'c02.c', SCL, dict(N=2, NSPK=1, SEP="'_'", IDT='"spu_id"', IDL=1), dict(NSPK=2), ['end']),
   J('many', 'c02.c', SCL, dict(N=2, NSPK=2, SEP="'_'", IDT='"spu_id"', PADN=70, PADS=29), dict(IDL=1), ['end']),
   J('one-speaker', 'c02.c', SCL, dict(N=2, NSPK=2, SEP="'-'", IDT='"rm"', PADN=90, PADS=1, CASE=1), {}, ['end', 'refused']),
   J('lines', 'c02line.c', SCL, dict(NB=1), dict(NB=3), ['end']),
   J('idkinds', 'c02id.c', SCL, dict(LMAX=5), dict(LMAX=6), ['end']),
 ]),
 'C03': dict(jobs=[
   J('three-speakers', 'c03.c', SCL, dict(NS=3, NU=1, MINR=0, NR=1, NH=2, LAST="'b'"), dict(NR=2), ['end', 'zero']),
   J('utterances', 'c03.c', SCL, dict(NS=2, NU=2, MINR=0, NR=2, NH=1, LAST="'b'"), dict(NH=2), ['end', 'zero']),
   J('one-speaker', 'c03.c', SCL, dict(NS=1, NU=1, MINR=0, NR=3, NH=3, LAST="'d'"), dict(NR=4, NH=4), ['end', 'zero']),
   J('insertions', 'c03.c', SCL, dict(NS=1, NU=2, MINR=0, NR=1, NH=3, LAST="'c'"), dict(NS=2), ['end', 'zero']),
   J('many', 'c03.c', SCL, dict(NS=2, NU=1, PADK=25, MINR=0, NR=2, NH=2, LAST="'b'"), dict(LAST="'c'"), ['end', 'zero']),
   J('many-utterances', 'c03.c', SCL, dict(NS=1, NU=1, PADU=85, MINR=0, NR=2, NH=2, LAST="'b'"), dict(LAST="'c'"), ['end', 'zero']),
   J('few', 'c03.c', SCL, dict(NS=1, NU=2, PADK=3, MINR=0, NR=2, NH=2, LAST="'b'"), dict(PADK=4), ['end', 'zero']),
   J('big-counts', 'c03.c', SCL, dict(NS=1, NU=1, BIG=1, MINR=0, NR=2, NH=2, LAST="'b'"), dict(NU=2), ['end']),
   J('padded', 'c03.c', SCL, dict(NS=2, NU=1, MINR=0, NR=2, NH=2, LAST="'c'", PADW='"x1 x2 x3 x4 x5 "'), dict(NS=3), ['end']),
 ]),
 'C04': dict(jobs=[
   J('detail', 'c04.c', SCL, dict(NU=2, NS=2, MINR=0, NR=2, NH=1, LEN=1, LAST="'c'", LW='"100"', DTL=1), dict(NH=2), ['end']),
   J('detail-one', 'c04.c', SCL, dict(NU=1, NS=1, MINR=0, NR=3, NH=3, LEN=1, LAST="'c'", LW='"100"', DTL=1), dict(NR=4, NH=4), ['end']),
   J('print', 'c04.c', SCL, dict(NU=2, NS=2, MINR=0, NR=2, NH=2, LEN=2, LAST="'c'", LW='"100"', PRA=1), dict(NR=3), ['end']),
   J('print-case', 'c04.c', SCL, dict(NU=1, NS=1, MINR=0, NR=2, NH=2, LEN=2, LAST="'c'", LW='"100"', PRA=1, SENS=1), {}, ['end']),
   J('detail-many', 'c04.c', SCL, dict(PADS=210, NU=1, NS=2, MINR=0, NR=2, NH=1, LEN=1, LAST="'c'", LW='"100"', DTL=1), dict(NH=2), ['end']),
   J('print-long', 'c04.c', SCL, dict(STEM='"thequickbrownfoxjumpsoverthelazydogandmore"', MAXL=80, NU=1, NS=1, MINR=0, NR=2, NH=2, LEN=2, LAST="'b'", LW='"100"', PRA=1), dict(NR=3), ['end']),
   J('print-many', 'c04.c', SCL, dict(PADS=40, NU=2, NS=2, MINR=0, NR=1, NH=1, LEN=1, LAST="'c'", LW='"60"', PRA=1), dict(NR=2), ['end']),
   J('print-times', 'c11.c', SCL, dict(PRF='"100"', NCH=1, MINR=1, NR=2, MINH=1, NH=2, CONF=1, RCONF=1, LAST="'b'"), dict(NR=3), ['end', 'c', 's', 'i', 'd']),
   J('print-times-narrow', 'c11.c', SCL, dict(PRF='"26"', NCH=1, MINR=1, NR=4, MINH=1, NH=3, CONF=1, RCONF=0, LAST="'b'"), dict(NH=4), ['end', 'c', 's', 'i', 'd']),
   J('detail-counts', 'c04.c', SCL, {'PADI(i)': '(i < 13 ? 0 : i < 26 ? 1 : i < 30 ? 2 : i)', 'PADS': 60, 'PADK': 1, 'NU': 1, 'NS': 1, 'MINR': 0, 'NR': 2, 'NH': 1, 'LEN': 1, 'LAST': "'c'", 'LW': '"100"', 'DTL': 1}, dict(NH=2), ['end']),
   J('print-narrow', 'c04.c', SCL, dict(NU=1, NS=1, MINR=1, NR=3, NH=3, LEN=3, LAST="'b'", LW='"12"', PRA=1), dict(NR=4), ['end']),
 ]),
 'C05': dict(jobs=[
   J('one-slot', 'c05.c', SCL, dict(KINDS=10, MINS=1, NSLOT=1, NH=3, LEN=1, LAST="'d'"), dict(NH=4), ['end']),
   J('two-slots', 'c05.c', SCL, dict(KINDS=5, MINS=2, NSLOT=2, NH=2, LEN=1, LAST="'d'"), dict(KINDS=7, NH=3), ['end']),
   J('more-kinds', 'c05.c', SCL, dict(KLO=10, KINDS=20, MINS=1, NSLOT=1, NH=3, LEN=1, LAST="'d'"), dict(NH=4), ['end']),
   J('three-slots', 'c05.c', SCL, dict(KLO=1, KINDS=4, MINS=3, NSLOT=3, NH=1, LEN=1, LAST="'b'"), dict(KLO=0, NH=2), ['end']),
   J('history', 'c05.c', SCL, dict(NU=2, KLO=1, KINDS=6, MINS=1, NSLOT=1, NH=2, LEN=1, LAST="'b'"), dict(KINDS=10), ['end']),
   J('many', 'c05.c', SCL, dict(PADN=40, KINDS=20, MINS=1, NSLOT=1, NH=1, LEN=1, LAST="'b'"), dict(NH=2), ['end']),
   J('marks', 'c05.c', SCL, dict(FORMS=3, KINDS=5, MINS=1, NSLOT=1, NH=2, LEN=1, LAST="'b'"), dict(KINDS=10), ['end']),
 ]),
 'C06': dict(jobs=[
   J('optional', 'c05.c', SCL, dict(OPTD=1, FORMS=4, MINS=0, NSLOT=2, NH=2, LEN=1, LAST="'d'"), dict(NH=3), ['end', 'optional']),
   J('fragments', 'c05.c', SCL, dict(FRAG=1, FORMS=5, MINS=1, NSLOT=1, NH=2, LEN=2, LAST="'c'"), dict(LEN=3), ['end', 'loose']),
   J('both', 'c05.c', SCL, dict(FRAG=1, OPTD=1, FORMS=5, MINS=1, NSLOT=1, NH=2, LEN=2, LAST="'c'"), dict(NSLOT=2), ['end', 'loose', 'optional']),
   J('no-options', 'c05.c', SCL, dict(FORMS=5, MINS=1, NSLOT=1, NH=2, LEN=2, LAST="'c'"), dict(NSLOT=2), ['end']),
   J('history', 'c05.c', SCL, dict(NU=2, FRAG=1, OPTD=1, FORMS=5, MINS=1, NSLOT=1, NH=1, LEN=2, LAST="'b'"), dict(LAST="'c'"), ['end', 'loose', 'optional']),
   J('many', 'c05.c', SCL, dict(PADN=40, FRAG=1, OPTD=1, FORMS=5, KINDS=1, MINS=1, NSLOT=1, NH=1, LEN=2, LAST="'b'"), dict(KINDS=5), ['end', 'loose', 'optional']),
   J('frag-long', 'c05.c', SCL, dict(FRAG=1, FORMS=3, MINS=1, NSLOT=1, NH=1, LEN=5, LAST="'b'"), dict(LEN=6), ['end', 'loose']),
   J('frag-alternatives', 'c05.c', SCL, dict(FRAG=1, FORMS=3, KINDS=5, MINS=1, NSLOT=1, NH=1, LEN=2, LAST="'b'"), dict(NH=2), ['end', 'loose']),
   J('alternatives', 'c05.c', SCL, dict(OPTD=1, FORMS=4, KINDS=4, MINS=1, NSLOT=1, NH=2, LEN=1, LAST="'c'"), dict(NSLOT=2), ['end', 'optional']),
 ]),
 'C10': dict(jobs=[
   J('times', 'c10.c', SCL, dict(NSEG=2, SEGQ=2, MINR=1, NR=1, NH=2, TMAX=5, DMAX=2, CONF=0, LAST="'c'"), dict(NSEG=3, NH=3), ['end', 'words', 'tail']),
   J('words', 'c10.c', SCL, dict(NSEG=2, SEGQ=4, MINR=0, NR=2, NH=2, TMAX=4, DMAX=0, CONF=1, LAST="'d'"), dict(NH=3), ['end', 'words']),
   J('channels', 'c10.c', SCL, dict(NCH=3, NSEG=2, SEGQ=2, MINR=1, NR=1, NH=1, TMAX=1, DMAX=1, CONF=0, LAST="'a'", EXTRA=1), dict(TMAX=4, LAST="'b'"), ['end', 'words', 'refused']),
   J('ignored', 'c10.c', SCL, dict(NSEG=3, SEGQ=4, MINR=1, NR=1, NH=2, TMAX=9, DMAX=0, CONF=0, LAST="'b'", IGN=1), dict(NH=3), ['end', 'words', 'ignored']),
   J('late', 'c10.c', SCL, dict(T0=4100, NSEG=2, SEGQ=2, MINR=1, NR=1, NH=2, TMAX=5, DMAX=2, CONF=0, LAST="'b'"), dict(NSEG=3), ['end', 'words', 'tail']),
   J('many-words', 'c10.c', SCL, dict(PADG=205, PADH=25, NSEG=1, SEGQ=2, MINR=1, NR=1, NH=1, TMAX=5, DMAX=1, CONF=1, LAST="'b'"), dict(NH=2), ['end', 'words', 'tail']),
   J('many', 'c10.c', SCL, dict(PADG=205, NSEG=2, SEGQ=2, MINR=1, NR=1, NH=1, TMAX=5, DMAX=1, CONF=1, LAST="'b'"), dict(NH=2), ['end', 'words', 'tail']),
   J('reduced', 'c10.c', SCL, dict(RED=1, NSEG=3, SEGQ=2, MINR=1, NR=1, NH=2, TMAX=8, DMIN=1, DMAX=2, CONF=0, LAST="'a'", T0=4), dict(LAST="'b'"), ['end', 'words', 'segment left out']),
   J('reduced-channels', 'c10.c', SCL, dict(RED=1, NCH=2, NSEG=2, SEGQ=2, MINR=1, NR=1, NH=1, TMAX=6, DMIN=1, DMAX=2, CONF=0, LAST="'a'"), dict(LAST="'b'"), ['end', 'words', 'segment left out', 'word left out']),
   J('reduced-choices', 'c10.c', SCL, dict(RED=1, ALT=1, NSEG=3, SEGQ=2, MINR=1, NR=1, NH=2, TMAX=7, DMIN=1, DMAX=1, CONF=0, LAST="'b'", T0=4), dict(DMAX=2), ['end', 'words', 'segment left out', 'word left out', 'second choice']),
   J('choices', 'c10.c', SCL, dict(ALT=1, NSEG=2, SEGQ=2, MINR=0, NR=2, NH=2, TMAX=3, DMAX=0, CONF=1, LAST="'b'"), dict(NH=3), ['end', 'words', 'second choice']),
   J('forms', 'c10.c', SCL, dict(NSEG=2, SEGQ=4, MINR=1, NR=1, NH=1, TMAX=6, DMAX=0, CONF=1, LAST="'b'", CMT=1, LAB=1, GAP=1), dict(NH=2), ['end', 'words']),
 ]),
 'C11': dict(jobs=[
   J('words', 'c11.c', SCL, dict(NCH=1, MINR=1, NR=3, MINH=1, NH=3, CONF=0, RCONF=0, LAST="'d'"), dict(NR=4), ['end', 'c', 's', 'i', 'd']),
   J('times', 'c11.c', SCL, dict(NCH=1, MINR=1, NR=2, MINH=1, NH=2, TMAX=3, DMIN=1, DMAX=2, CONF=0, RCONF=0, LAST="'b'"), dict(TMAX=4, DMIN=0), ['end', 'c', 's', 'i', 'd']),
   J('time-mediated', 'c11.c', SCL, dict(TALI=1, NCH=1, MINR=1, NR=2, MINH=1, NH=2, TMAX=3, DMIN=1, DMAX=2, CONF=0, RCONF=0, LAST="'b'"), dict(TMAX=4, DMIN=0), ['end', 'c', 's', 'i', 'd']),
   J('channels', 'c11.c', SCL, dict(NCH=3, MINR=1, NR=2, MINH=1, NH=1, CONF=1, RCONF=0, LAST="'b'", EXTRA=1), dict(NH=2), ['end', 'c', 's', 'd', 'refused']),
   J('late', 'c11.c', SCL, dict(T0=4100, NCH=1, MINR=1, NR=2, MINH=1, NH=2, TMAX=2, DMIN=0, DMAX=2, CONF=0, RCONF=0, LAST="'b'"), dict(TMAX=4), ['end', 'c', 's', 'i', 'd']),
   J('late-times', 'c11.c', SCL, dict(T0=4100, TALI=1, NCH=1, MINR=1, NR=2, MINH=1, NH=2, TMAX=3, DMIN=1, DMAX=2, CONF=0, RCONF=0, LAST="'b'"), dict(TMAX=4, DMIN=0), ['end', 'c', 's', 'i', 'd']),
   J('choices', 'c11.c', SCL, dict(ALT=1, NCH=1, MINR=1, NR=3, MINH=1, NH=3, CONF=1, RCONF=1, LAST="'b'"), dict(LAST="'c'"), ['end', 'c', 's', 'second choice']),
   J('long-times', 'c11.c', SCL, dict(TALI=1, NCH=1, PAD=52, MINR=1, NR=2, MINH=1, NH=2, TMAX=2, DMIN=1, DMAX=1, CONF=0, RCONF=1, LAST="'b'"), dict(DMAX=2), ['end', 'c', 's', 'split']),
   J('two-long', 'c11.c', SCL, dict(NCH=3, PAD=26, MINR=1, NR=1, MINH=1, NH=1, CONF=0, RCONF=1, LAST="'b'"), dict(NR=2), ['end', 'c', 's']),
   J('long', 'c11.c', SCL, dict(NCH=1, PAD=52, MINR=1, NR=2, MINH=1, NH=2, CONF=0, RCONF=1, LAST="'b'"), dict(NR=3), ['end', 'c', 's', 'split']),
 ]),
 'C12': dict(jobs=[
   J('weights', 'c12.c', SCL, dict(NS=1, NU=1, KIND=0, WLO=0, WHI=4, MINR=0, NR=2, NH=2, LAST="'c'"), dict(NR=3), ['end', 'row', 'total']),
   J('forms', 'c12.c', SCL, dict(NS=1, NU=1, KIND=3, WLO=1, WHI=3, MINR=1, NR=2, NH=1, LAST="'c'"), dict(NH=2), ['end', 'row', 'total']),
   J('speakers', 'c12.c', SCL, dict(NS=2, NU=2, KIND=0, WLO=1, WHI=2, MINR=1, NR=1, NH=1, LAST="'b'"), dict(NH=2), ['end', 'row', 'total']),
   J('repeats', 'c12.c', SCL, dict(NS=1, NU=1, KIND=0, WLO=2, WHI=3, MINR=1, NR=3, NH=3, LAST="'b'"), dict(NR=4), ['end', 'row']),
   J('optional', 'c12.c', SCL, dict(OPT=1, NS=1, NU=1, KIND=0, WLO=1, WHI=3, MINR=1, NR=2, NH=2, LAST="'b'"), dict(NR=3), ['end', 'row', 'optional']),
   J('list-many', 'c12.c', SCL, dict(PADL=140, NS=1, NU=1, KIND=0, WLO=1, WHI=1, MINR=1, NR=2, NH=2, LAST="'b'"), dict(NR=3), ['end', 'row']),
   J('many', 'c12.c', SCL, dict(PADK=25, NS=1, NU=1, KIND=0, WLO=1, WHI=2, MINR=1, NR=2, NH=1, LAST="'b'"), dict(NH=2), ['end', 'row', 'total']),
   J('known-optional', 'c12.c', SCL, dict(OPT=1, NS=1, NU=1, KIND=0, WLO=1, WHI=1, MINR=1, NR=2, NH=2, LAST="'a'", KF=1), {}, []),
   J('known-total', 'c12.c', SCL, dict(NS=1, NU=1, KIND=0, WLO=2, WHI=2, MINR=1, NR=1, NH=1, LAST="'b'", KF=1), {}, []),
 ]),
 'C13': dict(jobs=[
   J('words', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=1, NT=2, LENW=2, FIRST="'!'", LAST="'~'", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0), dict(NT=3), ['end']),
   J('attributes', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=7, LABS=2, ATTR=63, AUXM=0, NUMV=0), dict(NP=2), ['end']),
   J('aux', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=1, NT=2, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=63, NUMV=0), dict(NUMV=1), ['end']),
   J('numbers', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=43, NUMV=3), dict(AUXM=63), ['end']),
   J('structure', 'c13.c', SCL, dict(NSYS=2, NSPK=2, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=1, ATTR=0, AUXM=0, NUMV=0, PIPE=1), dict(NP=2), ['end']),
   J('many', 'c13.c', SCL, dict(NSYS=1, NSPK=2, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0, MANY=22, MANYP=26), dict(NT=2), ['end']),
   J('mixed', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=2, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=10, NUMV=0), dict(NT=2), ['end']),
   J('everything', 'c13.c', SCL, dict(ALLON=1, NSYS=1, NSPK=1, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=63, NUMV=1), dict(NUMV=2), ['end']),
   J('unusual-numbers', 'c13.c', SCL, dict(ALLON=1, NSYS=1, NSPK=1, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=2, NUMV=5), dict(AUXM=10), ['end']),
   J('hyp-times', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=1, NT=0, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=127, AUXM=0, NUMV=2), dict(NP=2), ['end']),
   J('bytes', 'c13.c', SCL, dict(NSYS=1, NSPK=1, NP=1, NT=1, LENW=2, FIRST="(char)0x80", LAST="(char)0xff", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0), dict(NT=2), ['end']),
   J('names', 'c13.c', SCL, dict(STRS=9, LOWER=1, NSYS=1, NSPK=1, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0), dict(NT=2), ['end']),
   J('long-words', 'c13.c', SCL, dict(LONGW=250, NSYS=1, NSPK=1, NP=2, NT=2, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0), dict(NT=3), ['end']),
   J('long-lines', 'c13.c', SCL, dict(PADW=120, NSYS=1, NSPK=1, NP=2, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0), dict(NT=2), ['end']),
   J('many-labels', 'c13.c', SCL, dict(MORELAB=14, NSYS=2, NSPK=1, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=1, ATTR=0, AUXM=0, NUMV=0, PIPE=1), dict(NT=2), ['end']),
   J('reports', 'c13.c', SCL, dict(NSYS=2, NSPK=2, NP=1, NT=1, LENW=0, FIRST="'a'", LAST="'z'", HEAD=0, LABS=0, ATTR=0, AUXM=0, NUMV=0, REP=1), dict(NT=2), ['end']),
 ]),
 'C14': dict(jobs=[
   J('labels', 'c14.c', SCL, dict(NSEG=2, SPKS=2, NLAB=2, MINR=0, NR=2, MINH=1, NH=1, LAST="'b'"), dict(NH=2), ['end', 'speakers', 'star']),
   J('categories', 'c14.c', SCL, dict(NSEG=3, SPKS=2, NLAB=3, MINR=1, NR=1, MINH=1, NH=1, LAST="'b'"), dict(NR=2), ['end', 'speakers']),
   J('three-speakers', 'c14.c', SCL, dict(NSEG=3, SPKS=3, NLAB=1, MINR=1, NR=2, MINH=1, NH=1, LAST="'a'"), dict(LAST="'b'"), ['end', 'speakers']),
   J('similar-ids', 'c14.c', SCL, dict(SET=1, CATS=1, NSEG=2, SPKS=2, NLAB=7, MINR=0, NR=1, MINH=1, NH=1, LAST="'b'"), dict(NR=2), ['end', 'speakers']),
   J('long-ids', 'c14.c', SCL, dict(SET=2, AGAIN=1, NSEG=2, SPKS=2, NLAB=7, MINR=1, NR=1, MINH=1, NH=1, LAST="'b'"), dict(NR=2), ['end', 'speakers']),
   J('many', 'c14.c', SCL, dict(PADK=25, NSEG=2, SPKS=2, NLAB=4, MINR=0, NR=1, MINH=1, NH=1, LAST="'b'"), dict(NR=2), ['end', 'speakers']),
   J('late', 'c14.c', SCL, dict(PADK=26, PADFIRST=1, NSEG=1, SPKS=2, NLAB=4, MINR=0, NR=2, MINH=1, NH=2, LAST="'b'"), dict(NSEG=2), ['end', 'speakers']),
   J('many-labels', 'c14.c', SCL, dict(MOREL=12, CATS=1, PADK=14, NSEG=2, SPKS=2, NLAB=4, MINR=0, NR=1, MINH=1, NH=1, LAST="'b'"), dict(NR=2), ['end', 'speakers']),
   J('history', 'c14.c', SCL, dict(NSEG=4, SPKS=2, NLAB=1, MINR=1, NR=1, MINH=1, NH=1, LAST="'b'"), dict(NLAB=2), ['end', 'speakers']),
 ]),
 'C15': dict(jobs=[
   J('nce-det', 'c15.c', SCL, dict(DET=1, NS=1, MINR=1, NR=2, MINH=1, NH=3, CLO=1, CHI=3, LAST="'b'"), dict(CLO=0, CHI=4), ['end', 'nce', 'det', 'nodet']),
   J('speakers', 'c15.c', SCL, dict(DET=1, NS=2, MINR=0, NR=1, MINH=0, NH=2, CLO=2, CHI=3, LAST="'b'"), dict(NR=2), ['end', 'nce', 'mean', 'noref']),
   J('extremes', 'c15.c', SCL, dict(DET=1, NS=1, MINR=1, NR=1, MINH=1, NH=2, CLO=0, CHI=5, LAST="'b'"), dict(NR=2), ['end', 'nce']),
   J('histograms', 'c15.c', SCL, dict(NS=1, MINR=1, NR=2, MINH=1, NH=2, CLO=0, CHI=5, LAST="'b'"), dict(NS=2), ['end', 'both']),
   J('many', 'c15.c', SCL, dict(DET=1, PADS=30, NS=1, MINR=1, NR=1, MINH=1, NH=2, CLO=2, CHI=4, LAST="'b'"), dict(NR=2), ['end', 'nce', 'det']),
   J('many-histograms', 'c15.c', SCL, dict(PADS=30, NS=1, MINR=1, NR=1, MINH=1, NH=2, CLO=2, CHI=4, LAST="'b'"), dict(NR=2), ['end', 'both']),
   J('scaled', 'c15.c', SCL, dict(SBH=1, PADS=20, NS=1, MINR=1, NR=2, MINH=1, NH=3, CLO=2, CHI=4, LAST="'b'"), dict(PADS=40), ['end', 'bins']),
   J('second-system', 'c15.c', SCL, dict(DET=1, NSYS=2, NS=2, MINR=1, NR=1, MINH=1, NH=2, CLO=2, CHI=3, LAST="'b'"), dict(NR=2), ['end', 'nce', 'det']),
   J('values', 'c15.c', SCL, dict(DET=1, NS=1, MINR=1, NR=1, MINH=2, NH=3, CLO=5, CHI=10, LAST="'b'"), dict(NR=2), ['end', 'nce', 'det']),
 ]),
 'C16': dict(jobs=[
   J('mcnemar', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mcn"', DMCN=1, COUNTS=1, CLO=0, CHI=8, CB=2), dict(CHI=12, CB=3), ['end', 'same', 'differ']),
   J('mcnemar-large', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mcn"', DMCN=1, COUNTS=1, CLO=18, CHI=21, CB=2), dict(CLO=13, CHI=26, CB=10), ['end', 'differ', 'large']),
   J('mcnemar-three', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mcn"', DMCN=1, NSYS=3, FREE=1, NSPK=1, UPS=3, FLIP=1), dict(UPS=4), ['end', 'same']),
   J('segments', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mapsswe"', DMAP=1, SEGS=4, INS=0), dict(SEGS=5), ['end', 'same']),
   J('segments-ins', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mapsswe"', DMAP=1, SEGS=2, INS=1), dict(SEGS=3), ['end', 'same']),
   J('segments-many', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mapsswe"', DMAP=1, SEGS=2, INS=0, PADSEG=105, PADSEG_N=105), dict(SEGS=3), ['end']),
   J('ranks', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"sign","wilc"', DSIGN=1, SPK=2, PADK=5, PATS=4, EMAX=2, FLIP=1), dict(EMAX=3), ['end', 'sign-same', 'sign-differ', 'wilc-same', 'wilc-differ']),
   J('ranks-large', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"sign","wilc"', DSIGN=1, SPK=1, PADK=21, PATS=4, EMAX=2), dict(SPK=2), ['end', 'large']),
   J('variance', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"anovar"', DANO=1, SPK=2, PADK=3, PATS=4, EMAX=2, FLIP=1), dict(EMAX=3), ['end', 'anovar-same', 'anovar-differ']),
   J('unified', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mcn","mapsswe","sign","wilc","anovar"', DUNI=1, SPK=2, PADK=5, PATS=4, EMAX=1, FLIP=1), dict(EMAX=2), ['end', 'named']),
   J('unified-three', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"mcn","mapsswe","sign","wilc","anovar"', DUNI=1, NSYS=3, SPK=1, PADK=6, PATS=4, EMAX=2), dict(SPK=2), ['end']),
   J('variance-three', 'c16.c', 'sctk:sc_stats.c', dict(TESTS='"anovar"', DANO=1, NSYS=3, SPK=1, PADK=4, PATS=4, EMAX=3), dict(SPK=2), ['end', 'anovar-same', 'anovar-differ']),
 ]),
 'C17': dict(jobs=[
   J('two', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=3, MINN=0, FIRST="'a'", LAST="'d'", COST=1), dict(NW=4, LAST="'c'"), ['end']),
   J('three', 'c17.c', 'sctk:rover.c', dict(NSYS=3, NW=2, FIRST="'a'", LAST="'c'", COST=1, METH='"avgconf"', NALPHA=1, CLO=2, CHI=2), dict(NW=3, LAST="'b'"), ['end', 'majority', 'split', 'null']),
   J('sections', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=1, MINN=0, NSEC=3, FIRST="'a'", LAST="'b'"), dict(NW=2), ['end', 'refused']),
   J('gaps', 'c17.c', 'sctk:rover.c', dict(NSYS=3, NW=3, MINN=1, GAP=1, FIRST="'a'", LAST="'a'"), dict(NW=4), ['end']),
   J('late', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=2, MINN=1, NSEC=2, GAP=1, FIRST="'a'", LAST="'a'"), dict(NW=3), ['end']),
   J('avgconf', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=1, FIRST="'a'", LAST="'b'", METH='"avgconf"', NALPHA=3, CLO=0, CHI=2, NULLC=1, MINN=0), dict(NW=2), ['end', 'split']),
   J('maxconf', 'c17.c', 'sctk:rover.c', dict(NSYS=3, NW=1, FIRST="'a'", LAST="'b'", METH='"maxconf"', NALPHA=3, CLO=0, CHI=2, NULLC=1, MINN=0), dict(CHI=3, LAST="'c'"), ['end', 'split', 'majority', 'null']),
   J('meth1', 'c17.c', 'sctk:rover.c', dict(NSYS=3, NW=1, FIRST="'a'", LAST="'b'", METH='"meth1"', NALPHA=3, CLO=0, CHI=2, NULLC=1, MINN=0), dict(CHI=3, LAST="'c'"), ['end', 'split', 'majority', 'null']),
   J('four', 'c17.c', 'sctk:rover.c', dict(NSYS=4, NW=1, FIRST="'a'", LAST="'c'", COST=1, METH='"avgconf"', NALPHA=2, CLO=1, CHI=2), dict(MINN=0), ['end', 'split', 'majority']),
   J('maxconf-four', 'c17.c', 'sctk:rover.c', dict(NSYS=4, NW=1, FIRST="'a'", LAST="'b'", COST=1, METH='"maxconf"', NALPHA=3, CLO=1, CHI=3), dict(MINN=0), ['end', 'split', 'majority']),
   J('near', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=1, NEAR=1, FIRST="'a'", LAST="'b'", METH='"maxconf"', NALPHA=3, CLO=0, CHI=1), dict(NSYS=3), ['end', 'split']),
   J('no-confidence', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=2, FIRST="'a'", LAST="'b'", METH='"meth1"', NALPHA=3, NOCONF=1), dict(NSYS=3), ['end', 'split', 'majority']),
   J('oracle', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=2, FIRST="'a'", LAST="'b'", METH='"oracle"', NALPHA=1, CLO=1, CHI=2), dict(NSYS=3), ['end', 'alt']),
   J('case', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=2, FIRST="'A'", LAST="'B'", METH='"avgconf"', NALPHA=1, CLO=2, CHI=2), dict(NSYS=3), ['end', 'majority']),
   J('long', 'c17.c', 'sctk:rover.c', dict(PADW=110, T0=50000, NSYS=2, NW=2, FIRST="'a'", LAST="'c'", COST=1, METH='"avgconf"', NALPHA=1, CLO=2, CHI=2), dict(NW=3), ['end', 'majority', 'split']),
   J('names', 'c17.c', 'sctk:rover.c', dict(SECSET=1, NSYS=2, NW=1, MINN=0, NSEC=3, FIRST="'a'", LAST="'b'", METH='"meth1"', NALPHA=1, CLO=1, CHI=1), dict(NW=2), ['end', 'refused']),
   J('six', 'c17.c', 'sctk:rover.c', dict(NSYS=6, NW=1, FIRST="'a'", LAST="'c'", COST=1, METH='"maxconf"', NALPHA=1, CLO=2, CHI=2), dict(MINN=0), ['end', 'split', 'majority']),
   J('six-weighted', 'c17.c', 'sctk:rover.c', dict(NSYS=6, NW=1, FIRST="'a'", LAST="'b'", METH='"avgconf"', NALPHA=3, CLO=1, CHI=2), dict(MINN=0), ['end', 'split', 'majority']),
   J('times', 'c17.c', 'sctk:rover.c', dict(NSYS=2, NW=3, FIRST="'a'", LAST="'b'", METH='"avgconf"', NALPHA=1, TIME=1, SENS=1, CLO=2, CHI=2), dict(NSYS=3), ['end', 'majority']),
 ]),
 'C18': dict(jobs=[
   J('tables', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"sum","rsum","es","res"', SUM=1, NSPK=3, PADU=3, NU=1, NW=2, ALPHA='"CSD"', INS=1, FLIP=1), dict(NU=2), ['end']),
   J('tables-missing', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"sum","rsum","es","res"', SUM=1, NSPK=3, PADU=3, NU=1, NW=1, ALPHA='"CS"', INS=0, FLIP=1, MISS=2, NSYS=3), dict(NW=2), ['end', 'missing']),
   J('tables-many', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"sum","rsum","es","res"', SUM=1, NSYS=30, SYMS=1, SYSNAMES='{' + ','.join('"s%c"' % (97 + i) if i < 26 else '"t%c"' % (71 + i) for i in range(30)) + '}', NSPK=2, PADU=2, NU=1, NW=1, ALPHA='"CS"', INS=1), dict(NW=2), ['end']),
   J('alignments', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"prn"', PRN=1, NSPK=2, PADU=2, NU=1, NW=2, ALPHA='"CSD"', INS=2, FLIP=1, SYMW=1), dict(NW=3), ['end', 'lattice-error']),
   J('alignments-three', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"prn"', PRN=1, NSYS=3, NSPK=3, PADU=3, NU=1, NW=1, ALPHA='"CSD"', INS=1, FLIP=1, MISS=1), dict(NW=2), ['end', 'lattice-error', 'missing']),
   J('references', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"prn"', PRN=1, NSPK=2, PADU=2, NU=1, NW=2, ALPHA='"CSD"', INS=1, REFD=1), dict(INS=2), ['end', 'different-refs']),
   J('wrap', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"prn"', PRN=1, NSPK=1, PADU=0, NU=1, NW=3, ALPHA='"C"', INS=1, LONG=1, LLO=80, LHI=100, LHI2=4), dict(LLO=1, LHI=150, LHI2=6), ['end', 'wrapped']),
   J('labels', 'c18.c', 'sctk:sc_stats.c', dict(REPORTS='"lur"', LUR=1, NSPK=3, PADU=3, NU=1, NW=1, ALPHA='"CS"', INS=1, FLIP=1, MISS=2), dict(NW=2), ['end', 'missing']),
 ]),
 'C19': dict(jobs=[
   J('free', 'c19.c', 'rfilter1', dict(NR=2, CTX=0, LI=4, ALPHA='"ab"'), dict(NR=3, LI=5), ['a rule applies', 'a later rule applies']),
   J('context', 'c19.c', 'rfilter1', dict(NR=1, CTX=1, LI=3, LC=2, LB=1, BALPHA='"x"'), dict(LI=4), ['a rule applies', 'in context']),
   J('context-two', 'c19.c', 'rfilter1', dict(NR=2, CTX=2, LI=3, LA=1, LB=1, ALPHA='"a "', BALPHA='"xy"'), dict(LI=4), ['in context', 'a later rule applies']),
   J('nocase', 'c19.c', 'rfilter1', dict(NR=2, CTX=2, LI=3, LA=1, LB=1, NOCASE=1, ALPHA='"aAb"', BALPHA='"x"'), dict(LI=4), ['in context', 'a later rule applies']),
   J('nocopy', 'c19.c', 'rfilter1', dict(NR=2, CTX=2, LI=3, LA=1, LB=1, NOCOPY=1, ALPHA='"a "', BALPHA='"x"'), dict(LI=4), ['in context', 'a later rule applies']),
   J('styles', 'c19.c', 'rfilter1', dict(NR=1, CTX=2, LI=2, LB=1, STYLE=3, COMMENT=1, ALPHA='"a "', BALPHA='"x "'), dict(LI=3), ['a rule applies']),
   J('slash', 'c19.c', 'rfilter1', dict(NR=1, CTX=2, LI=2, LA=1, LB=3, ALPHA='"a/"', BALPHA='"x/ "'), dict(LI=3), ['a rule applies']),
   J('bytes', 'c19.c', 'rfilter1', dict(NR=2, CTX=0, LI=3, LA=2, LB=1, ALPHA='"\\xb0\\xe1\\xff"', BALPHA='"\\xc0"'), dict(LI=4), ['a later rule applies']),
   J('lines', 'c19.c', 'rfilter1', dict(NR=1, CTX=1, LI=2, LA=1, LB=1, NLINES=2, MAXR=1, ALPHA='"a "', BALPHA='"x"'), dict(NLINES=3), ['a rule applies']),
   J('many-rules', 'c19.c', 'rfilter1', dict(PADR=120, NR=2, CTX=0, LI=2, LA=1, LB=1, MAXR=1, ALPHA='"ab"', BALPHA='"x"'), dict(LI=3), ['a later rule applies', 'one of many']),
   J('default-many', 'c19.c', 'rfilter1', dict(PADR=396, NR=2, CTX=0, LI=1, LA=1, LB=1, ALPHA='"ab"', BALPHA='"x"'), dict(LI=2), ['a later rule applies', 'one of many']),
   J('long-strings', 'c19.c', 'rfilter1', dict(STEM=24, NR=1, CTX=1, LI=3, LA=1, LB=1, LC=1, ALPHA='"ab"', BALPHA='"x"'), dict(LI=4), ['a rule applies', 'in context']),
   J('long-line', 'c19.c', 'rfilter1', dict(PADT=1200, NR=1, CTX=1, LI=2, LA=1, LB=2, LC=1, ALPHA='"aw"', BALPHA='"x"'), dict(LI=3), ['a rule applies', 'in context']),
   J('flag', 'c19.c', 'rfilter1', dict(FLAG='"#"', NR=1, CTX=2, LI=2, LA=1, LB=2, COMMENT=1, ALPHA='"a;"', BALPHA='"x;"'), dict(LI=3), ['a rule applies']),
   J('none', 'c19.c', 'rfilter1', dict(NR=2, MINR=0, CTX=0, LI=3, LA=1, LB=1, MAXR=1, ALPHA='"a "', BALPHA='"x"'), dict(LI=4), ['a later rule applies']),
 ]),
 'C21': dict(jobs=[
   J('two-speakers', 'c21.c', 'asclite', dict(ASC=1, NHSPK=2, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=1, NS=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('rttm-ref', 'c21.c', 'asclite', dict(ASC=1, RREF=1, NHSPK=2, TYPES='{"LEX"}', TKIND='{0}', RTY=0, MINS=1, NS=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('mapped', 'c21.c', 'asclite', dict(ASC=1, RREF=1, MAP=1, NHSPK=2, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=1, NS=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'wrong-speaker', 'end']),
   J('types', 'c21.c', 'asclite', dict(ASC=1, RREF=1, OPTD=3, CONF=1, NHSPK=1, TYPES='{"lex", "fp", "noise"}', NTY=3, TKIND='{0, 1, 2}', RTY=1, MINS=1, NS=1, TMAX=1, SLEN=1, MINW=1, NW=2, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA=''), dict(NH=3), ['cor', 'end', 'left-out', 'no-word']),
   J('all-types', 'c21.c', 'asclite', dict(ASC=1, RREF=1, OPTD=3, NHSPK=1, TYPES='{"lex", "FP", "frag", "Un-Lex", "for-lex", "alpha", "acronym", "interjection", "propernoun", "other", "misc", "non-lex"}', NTY=12, TKIND='{0, 1, 1, 1, 1, 0, 0, 0, 0, 2, 2, 2}', RTY=1, MINS=1, NS=1, TMAX=1, SLEN=1, MINW=1, NW=1, MINH=2, NH=2, HSTEP=4, LAST="'a'", EXTRA=''), dict(HSTEP=2), ['cor', 'end', 'left-out', 'no-word']),
   J('optional', 'c21.c', 'asclite', dict(ASC=1, OPTD=3, NHSPK=2, TYPES='{"lex", "fp"}', NTY=2, TKIND='{0, 1}', RTY=1, MINS=1, NS=1, TMAX=1, SLEN=1, MINW=1, NW=2, MINH=2, NH=3, HSTEP=1, LAST="'a'", EXTRA=''), dict(LAST="'b'"), ['cor', 'end', 'left-out']),
   J('optional-hyp', 'c21.c', 'asclite', dict(ASC=1, OPTD=2, NHSPK=1, TYPES='{"lex", "frag"}', NTY=2, TKIND='{0, 1}', RTY=1, MINS=1, NS=1, TMAX=1, SLEN=1, MINW=1, NW=2, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA=''), dict(NH=3), ['cor', 'end', 'left-out']),
   J('optional-ref', 'c21.c', 'asclite', dict(ASC=1, OPTD=1, NHSPK=1, TYPES='{"lex", "frag"}', NTY=2, TKIND='{0, 1}', RTY=1, MINS=1, NS=1, TMAX=1, SLEN=1, MINW=1, NW=2, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA=''), dict(NH=3), ['cor', 'end', 'left-out']),
   J('three-segments', 'c21.c', 'asclite', dict(ASC=1, RREF=1, NHSPK=2, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=3, NS=3, TMAX=3, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA=''), dict(NH=2), ['cor', 'gap', 'end']),
   J('chain', 'c21.c', 'asclite', dict(ASC=1, RREF=1, NHSPK=1, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=4, NS=4, TMAX=3, SLEN=3, MINW=1, NW=1, MINH=1, NH=1, HSTEP=4, LAST="'b'", EXTRA=''), dict(NH=2), ['cor', 'end']),
   J('mapped-channels', 'c21.c', 'asclite', dict(ASC=1, NCH=2, RREF=1, MAP=1, NHSPK=1, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=1, NS=2, TMAX=1, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=4, LAST="'a'", EXTRA=''), dict(NHSPK=2), ['cor', 'wrong-speaker', 'end']),
   J('mapped-words', 'c21.c', 'asclite', dict(ASC=1, MAP=1, NHSPK=2, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=2, NS=2, TMAX=1, SLEN=1, MINW=1, NW=2, MINH=2, NH=3, HSTEP=3, LAST="'b'", EXTRA=''), dict(HSTEP=2), ['cor', 'wrong-speaker', 'end']),
   J('late', 'c21.c', 'asclite', dict(ASC=1, T0=4100, RREF=1, NHSPK=2, TYPES='{"lex"}', TKIND='{0}', RTY=0, MINS=1, NS=2, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('mapped-optional', 'c21.c', 'asclite', dict(ASC=1, RREF=1, OPTD=3, MAP=1, NHSPK=2, TYPES='{"lex", "fp"}', NTY=2, TKIND='{0, 1}', RTY=1, MINS=1, NS=1, TMAX=1, SLEN=1, MINW=1, NW=2, MINH=1, NH=2, HSTEP=2, LAST="'a'", EXTRA=''), dict(NH=3), ['cor', 'wrong-speaker', 'end', 'left-out']),
 ]),
 'C22': dict(jobs=[
   J('two-speakers', 'c22.c', 'asclite', dict(ASC=1, MINS=1, NS=2, NSPK=2, TMAX=3, SLEN=2, MINW=0, NW=1, MINH=1, NH=2, HSTEP=1, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('words', 'c22.c', 'asclite', dict(ASC=1, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=2, MINH=3, NH=3, HSTEP=3, LAST="'c'", EXTRA=''), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('three-segments', 'c22.c', 'asclite', dict(ASC=1, MINS=3, NS=3, NSPK=3, TMAX=3, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA=''), dict(NH=2), ['cor', 'gap', 'end']),
   J('chain', 'c22.c', 'asclite', dict(ASC=1, MINS=4, NS=4, NSPK=2, TMAX=3, SLEN=3, MINW=1, NW=1, MINH=1, NH=1, HSTEP=4, LAST="'b'", EXTRA=''), dict(NH=2), ['cor', 'end']),
   J('channels', 'c22.c', 'asclite', dict(ASC=1, NCH=2, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=0, NW=1, MINH=1, NH=3, HSTEP=3, LAST="'a'", EXTRA=''), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('ignored', 'c22.c', 'asclite', dict(ASC=1, IGN=1, MINS=1, NS=2, NSPK=2, TMAX=3, SLEN=2, MINW=0, NW=1, MINH=1, NH=1, HSTEP=1, LAST="'a'", EXTRA=''), dict(NH=3, HSTEP=2), ['cor', 'gap', 'end', 'ignored']),
   J('ignored-chain', 'c22.c', 'asclite', dict(ASC=1, IGN=1, MINS=3, NS=3, NSPK=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'a'", EXTRA=''), dict(NSPK=3), ['cor', 'end', 'ignored']),
   J('lines', 'c22.c', 'asclite', dict(ASC=1, NOTE=1, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=0, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'a'", EXTRA=''), dict(NH=3, HSTEP=4), ['cor', 'gap', 'end']),
   J('two-systems', 'c22.c', 'asclite', dict(ASC=1, NSYS=2, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=0, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'b'", EXTRA=''), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('late', 'c22.c', 'asclite', dict(ASC=1, T0=4100, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=2, HSTEP=1, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('files', 'c22.c', 'asclite', dict(ASC=1, NCH=3, CHNS='{"f1", "1"}, {"f12", "1"}, {"f12", "2"}', MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=0, NW=1, MINH=1, NH=1, HSTEP=3, LAST="'b'", EXTRA=''), dict(NH=3), ['cor', 'gap', 'end']),
   J('many', 'c22.c', 'asclite', dict(ASC=1, T0=60, PADG=40, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA=''), dict(NH=2), ['cor', 'gap', 'end']),
   J('fine', 'c22.c', 'asclite', dict(ASC=1, UNIT=70, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=1, HSTEP=1, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('late-fine', 'c22.c', 'asclite', dict(ASC=1, UNIT=7, T0=150000, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=0, NW=1, MINH=1, NH=1, HSTEP=1, LAST="'b'", EXTRA=''), dict(NW=2), ['cor', 'gap', 'end']),
   J('known', 'c22.c', 'asclite', dict(ASC=1, MINS=1, NS=1, NSPK=1, TMAX=3, SLEN=1, MINW=1, NW=1, MINH=2, NH=2, HSTEP=2, LAST="'a'", EXTRA='', KF=1), {}, []),
 ]),
 'C24': dict(jobs=[
   J('no-gaps', 'c22.c', 'asclite', dict(ASC=1, NOISG=1, MINS=1, NS=2, NSPK=2, TMAX=3, SLEN=2, MINW=0, NW=1, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA='"-noisg",'), dict(HSTEP=1), ['cor', 'no gap', 'end']),
   J('limit-1', 'c22.c', 'asclite', dict(ASC=1, LIMX=1, MINS=1, NS=3, NSPK=2, TMAX=3, SLEN=2, MINW=0, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA='"-overlap-limit","1",'), dict(NH=2), ['cor', 'gap', 'not selected', 'end']),
   J('limit-2', 'c22.c', 'asclite', dict(ASC=1, LIMX=2, MINS=3, NS=3, NSPK=3, TMAX=3, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA='"-overlap-limit","2",'), dict(NH=2), ['cor', 'gap', 'not selected', 'end']),
   J('minimum-1', 'c22.c', 'asclite', dict(ASC=1, LIMN=1, MINS=1, NS=2, NSPK=2, TMAX=3, SLEN=2, MINW=0, NW=1, MINH=1, NH=2, HSTEP=2, LAST="'b'", EXTRA='"-overlap-min","1",'), dict(HSTEP=1), ['cor', 'gap', 'end']),
   J('minimum-2', 'c22.c', 'asclite', dict(ASC=1, LIMN=2, MINS=3, NS=3, NSPK=3, TMAX=3, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA='"-overlap-min","2",'), dict(NH=2), ['cor', 'no gap', 'not selected', 'end']),
   J('window', 'c22.c', 'asclite', dict(ASC=1, LIMN=2, LIMX=2, MINS=3, NS=3, NSPK=3, TMAX=3, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'b'", EXTRA='"-overlap-min","2","-overlap-limit","2",'), dict(NH=2), ['cor', 'no gap', 'not selected', 'end']),
   J('self-overlap-ref', 'c22.c', 'asclite', dict(ASC=1, AUTO=1, NCH=2, MINS=1, NS=3, NSPK=2, TMAX=3, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=3, LAST="'a'", EXTRA='"-spkrautooverlap","ref",'), dict(HSTEP=2), ['cor', 'refused', 'end']),
   J('self-overlap-hyp', 'c22.c', 'asclite', dict(ASC=1, AUTO=2, NCH=2, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=3, HSTEP=1, LAST="'a'", EXTRA='"-spkrautooverlap","hyp",'), dict(SLEN=2), ['cor', 'refused', 'end']),
   J('self-overlap-both', 'c22.c', 'asclite', dict(ASC=1, AUTO=3, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=2, HSTEP=1, LAST="'a'", EXTRA='"-spkrautooverlap","both",'), dict(NH=3), ['cor', 'refused', 'end']),
 ]),
 'C25': dict(jobs=[
   J('one-interval', 'c22.c', 'asclite', dict(ASC=1, UEM=1, USTEP=2, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=1, LAST="'a'", EXTRA=''), dict(NH=2), ['cor', 'gap', 'end', 'outside', 'refused']),
   J('both', 'c22.c', 'asclite', dict(ASC=1, UEM=2, USTEP=2, UOPT='"both",', MINS=1, NS=1, NSPK=1, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'a'", EXTRA=''), dict(SLEN=2), ['cor', 'gap', 'end', 'outside']),
   J('ref', 'c22.c', 'asclite', dict(ASC=1, UEM=2, USTEP=2, UOPT='"ref",', MINS=1, NS=1, NSPK=1, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'a'", EXTRA=''), dict(SLEN=2), ['cor', 'gap', 'end', 'outside']),
   J('hyp', 'c22.c', 'asclite', dict(ASC=1, UEM=2, USTEP=2, UHYP=1, UOPT='"hyp",', MINS=1, NS=1, NSPK=1, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'a'", EXTRA=''), dict(SLEN=2), ['cor', 'gap', 'end', 'outside']),
   J('two-intervals', 'c22.c', 'asclite', dict(ASC=1, UEM=2, USTEP=2, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'a'", EXTRA=''), dict(SLEN=2), ['cor', 'gap', 'end', 'outside', 'refused']),
   J('channels', 'c22.c', 'asclite', dict(ASC=1, UEM=2, USTEP=4, NCH=2, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=2, HSTEP=3, LAST="'a'", EXTRA=''), dict(NH=3), ['cor', 'gap', 'end', 'outside']),
   J('files', 'c22.c', 'asclite', dict(ASC=1, UEM=2, USTEP=4, NCH=3, CHNS='{"f1", "1"}, {"f12", "1"}, {"f12", "2"}', MINS=1, NS=2, NSPK=1, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=1, HSTEP=3, LAST="'a'", EXTRA=''), dict(NH=2), ['cor', 'gap', 'end', 'outside']),
   J('late', 'c22.c', 'asclite', dict(ASC=1, UEM=1, USTEP=1, T0=4100, MINS=1, NS=2, NSPK=1, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=1, HSTEP=3, LAST="'a'", EXTRA=''), dict(SLEN=2), ['cor', 'gap', 'end', 'outside', 'refused']),
   J('fine', 'c22.c', 'asclite', dict(ASC=1, UNIT=7, UEM=1, USTEP=1, T0=150000, MINS=1, NS=2, NSPK=1, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=1, HSTEP=3, LAST="'a'", EXTRA=''), dict(SLEN=2), ['cor', 'gap', 'end', 'outside', 'refused']),
   J('many', 'c22.c', 'asclite', dict(ASC=1, UEM=1, USTEP=2, T0=60, PADG=40, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=1, NW=1, MINH=1, NH=1, HSTEP=2, LAST="'a'", EXTRA=''), dict(NH=2), ['cor', 'gap', 'end', 'outside', 'refused']),
   J('words', 'c22.c', 'asclite', dict(ASC=1, UEM=1, USTEP=2, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=1, MINW=1, NW=2, MINH=3, NH=3, HSTEP=2, LAST="'b'", EXTRA=''), dict(HSTEP=1), ['cor', 'gap', 'end', 'outside', 'refused']),
 ]),
 'C26': dict(jobs=[
   J('time-prune', 'c22.c', 'asclite', dict(ASC=1, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=2, MINH=1, NH=3, HSTEP=3, LAST="'b'", EXTRA='"-time-prune","100000",'), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('word-time', 'c22.c', 'asclite', dict(ASC=1, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=2, MINH=1, NH=3, HSTEP=3, LAST="'b'", EXTRA='"-word-time-align","100000",'), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('both', 'c22.c', 'asclite', dict(ASC=1, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=3, HSTEP=3, LAST="'b'", EXTRA='"-time-prune","100000","-word-time-align","100000",'), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('prune-late', 'c22.c', 'asclite', dict(ASC=1, UNIT=7, T0=150000, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=3, HSTEP=3, LAST="'b'", EXTRA='"-time-prune","100000",'), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('prune-many', 'c22.c', 'asclite', dict(ASC=1, T0=60, PADG=30, MINS=1, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=3, LAST="'b'", EXTRA='"-time-prune","100000",'), dict(HSTEP=2), ['cor', 'gap', 'end']),
   J('limits', 'c22.c', 'asclite', dict(ASC=1, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=2, MINH=1, NH=2, HSTEP=4, LAST="'b'", EXTRA='"-overlap-limit","2","-memory-limit","1","-difficulty-limit","1",'), dict(NH=3), ['cor', 'gap', 'end']),
   J('compressed-many', 'c22.c', 'asclite-codec', dict(ASC=1, CODEC=2, T0=60, PADG=12, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=1, MINH=1, NH=1, HSTEP=4, LAST="'b'", EXTRA='"-memory-limit","0","-force-memory-compression","-memory-compression","1",'), dict(CODEC=4), ['cor', 'gap', 'end', 'uncompressed']),
   J('compressed', 'c22.c', 'asclite-codec', dict(ASC=1, CODEC=3, MINS=2, NS=2, NSPK=2, TMAX=2, SLEN=2, MINW=1, NW=2, MINH=1, NH=1, HSTEP=4, LAST="'b'", EXTRA='"-memory-limit","0","-force-memory-compression","-memory-compression","1",'), dict(CODEC=5, NH=3), ['cor', 'gap', 'end', 'uncompressed']),
   J('compressed-large', 'c22.c', 'asclite-codec', dict(ASC=1, CODEC=2, MINS=2, NS=2, NSPK=2, TMAX=1, SLEN=1, MINW=2, NW=4, MINH=2, NH=4, HSTEP=1, LAST="'a'", EXTRA='"-memory-limit","0","-force-memory-compression","-memory-compression","1",'), dict(NW=6, NH=5), ['cor', 'gap', 'end', 'uncompressed']),
 ]),
 'C23': dict(jobs=[
   J('one-speaker', 'c23.c', 'asclite', dict(ASC=1, NS=1, NU=1, NR=3, NH=3, LAST="'c'"), dict(NR=4, NH=4), ['end', 'flagged']),
   J('three-speakers', 'c23.c', 'asclite', dict(ASC=1, NS=3, NU=1, NR=1, NH=2, LAST="'b'"), dict(NR=2), ['end', 'flagged']),
   J('utterances', 'c23.c', 'asclite', dict(ASC=1, NS=2, NU=2, NR=1, NH=1, LAST="'b'"), dict(NR=2), ['end', 'flagged']),
   J('two-systems', 'c23.c', 'asclite', dict(ASC=1, NSYS=2, NS=1, NU=1, NR=2, NH=1, LAST="'b'"), dict(NH=2), ['end', 'flagged']),
   J('many', 'c23.c', 'asclite', dict(ASC=1, PADK=25, NS=2, NU=1, NR=1, NH=1, LAST="'b'"), dict(NH=2), ['end', 'flagged']),
   J('big-counts', 'c23.c', 'asclite', dict(ASC=1, PADW=60, PADK=3, NS=1, NU=1, NR=2, NH=2, LAST="'b'"), dict(NR=3), ['end']),
   J('wide', 'c23.c', 'asclite', dict(ASC=1, PADI=104, PADK=2, NS=1, NU=1, NR=2, NH=1, LAST="'a'"), dict(NH=2), ['end', 'flagged']),
   J('names', 'c23.c', 'asclite', dict(ASC=1, STEM='"averyveryverylongspeaker"', NS=2, NU=1, NR=1, NH=1, LAST="'b'"), dict(NH=2), ['end', 'flagged']),
   J('attributed', 'c23.c', 'asclite', dict(ASC=1, SPK=1, NS=2, NU=1, NR=2, NH=2, LAST="'b'"), dict(NH=3), ['end', 'wrong-speaker', 'flagged']),
   J('attributed-segments', 'c23.c', 'asclite', dict(ASC=1, SPK=1, NS=2, NU=2, NR=1, NH=1, LAST="'b'"), dict(NH=2), ['end', 'wrong-speaker']),
 ]),
 'C27': dict(jobs=[
   J('two-outputs', 'c27.c', 'asclite', dict(ASC=1, NSYS=2, NW=2, TMAX=4, DMAX=2, LAST="'b'"), dict(NW=3), ['end', 'agree', 'differ', 'missing']),
   J('three-outputs', 'c27.c', 'asclite', dict(ASC=1, NSYS=3, NW=1, TMAX=2, DMAX=2, LAST="'c'"), dict(NW=2), ['end', 'agree', 'differ', 'missing']),
   J('chains', 'c27.c', 'asclite', dict(ASC=1, NSYS=3, NW=2, NC3=1, TMAX=2, DMAX=2, LAST="'a'"), dict(NC3=2), ['end', 'agree', 'missing']),
   J('words', 'c27.c', 'asclite', dict(ASC=1, NSYS=3, FIXT=1, NW=2, TMAX=2, DMAX=2, LAST="'c'"), dict(NW=3), ['end', 'agree', 'differ', 'missing']),
   J('channels', 'c27.c', 'asclite', dict(ASC=1, NSYS=2, NCH=3, NW=2, TMAX=1, DMAX=2, LAST="'b'"), dict(TMAX=2), ['end', 'agree', 'differ', 'missing']),
   J('confidence', 'c27.c', 'asclite', dict(ASC=1, NSYS=2, CONF=1, NW=1, TMAX=2, DMAX=2, LAST="'b'"), dict(NW=2), ['end', 'agree', 'differ', 'missing']),
 ]),
 'C07': dict(jobs=[
   J('ascii', 'c07.c', SCL, dict(KMASK=1, NLET=26, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'match', 'differ']),
   J('sensitive', 'c07.c', SCL, dict(SENS=1, KMASK=1, NLET=26, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=2), dict(NC=3), ['end', 'match', 'differ']),
   J('extended', 'c07.c', SCL, dict(ENC='"ext_ascii"', KMASK='1 + 16', NLET=2, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'match', 'differ']),
   J('gb', 'c07.c', SCL, dict(ENC='"gb"', KMASK='1 + 8', NLET=2, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'match', 'differ']),
   J('euc-words', 'c07.c', SCL, dict(ENC='"euc"', KMASK='1 + 8', NLET=1, MINC=1, NC=1, MINR=1, NR=2, MINH=1, NH=2), dict(NC=2), ['end', 'match', 'differ']),
   J('utf-8', 'c07.c', SCL, dict(ENC='"utf-8"', KMASK='1 + 2 + 4 + 32', NLET=2, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'match', 'differ']),
   J('utf-8-words', 'c07.c', SCL, dict(ENC='"utf-8"', KMASK='1 + 2 + 4', NLET=1, MINC=1, NC=1, MINR=1, NR=2, MINH=1, NH=2), dict(NC=2), ['end', 'match', 'differ']),
   J('turkish', 'c07.c', SCL, dict(ENC='"utf-8"', LP=1, KMASK='1 + 2', NLET=26, L2LO=0xc3, L2HI=0xc5, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('lithuanian', 'c07.c', SCL, dict(ENC='"utf-8"', LP=2, KMASK='1 + 2', NLET=2, L2LO=0xc4, L2HI=0xc5, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('kurmanji', 'c07.c', SCL, dict(ENC='"utf-8"', LP=3, KMASK='1 + 2', NLET=2, L2LO=0xc3, L2HI=0xc5, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('cebuano', 'c07.c', SCL, dict(ENC='"utf-8"', LP=4, KMASK='1 + 2', NLET=2, L2LO=0xc3, L2HI=0xc3, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('kazakh', 'c07.c', SCL, dict(ENC='"utf-8"', LP=5, KMASK='1 + 2', NLET=2, L2LO=0xd0, L2HI=0xd3, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('mongolian', 'c07.c', SCL, dict(ENC='"utf-8"', LP=6, KMASK='1 + 2', NLET=2, L2LO=0xd0, L2HI=0xd3, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('vietnamese', 'c07.c', SCL, dict(ENC='"utf-8"', LP=7, KMASK='1 + 2 + 4', NLET=2, L2LO=0xc3, L2HI=0xc6, L3LO=0xE1, L3HI=0xE1, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('guarani', 'c07.c', SCL, dict(ENC='"utf-8"', LP=8, KMASK='1 + 2 + 4', NLET=2, L2LO=0xc3, L2HI=0xc5, L3LO=0xE1, L3HI=0xE1, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('ukrainian', 'c07.c', SCL, dict(ENC='"utf-8"', LP=9, KMASK='1 + 2', NLET=2, L2LO=0xd0, L2HI=0xd1, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(L2HI=0xD3), ['end', 'match', 'differ']),
   J('ukrainian-more', 'c07.c', SCL, dict(ENC='"utf-8"', LP=9, KMASK='1 + 2', NLET=2, L2LO=0xd2, L2HI=0xd3, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(), ['end', 'match', 'differ']),
   J('turkish-words', 'c07.c', SCL, dict(ENC='"utf-8"', LP=1, KMASK='1 + 2', NLET=9, L2LO=0xC4, L2HI=0xC4, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'match', 'differ']),
   J('history', 'c07.c', SCL, dict(NUT=2, KMASK=1, NLET=26, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(NC=2), ['end', 'match', 'differ']),
   J('long-words', 'c07.c', SCL, dict(STEM='"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"', MAXL=80, KMASK=1, NLET=26, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'match', 'differ']),
   J('utf-8-long', 'c07.c', SCL, dict(ENC='"utf-8"', STEM='"abcd\xc3\xa9\xe4\xb8\xadwxyz\xc3\xa9\xe4\xb8\xadabcd\xc3\xa9\xe4\xb8\xad"', MAXL=80, KMASK='1 + 2 + 4', NLET=2, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(NC=2), ['end', 'match', 'differ']),
   J('timed', 'c07.c', SCL, dict(STM=1, NUT=2, KMASK=1, NLET=26, MINC=1, NC=1, MINR=1, NR=2, MINH=1, NH=1), dict(NC=2), ['end', 'match', 'differ']),
   J('timed-ext', 'c07.c', SCL, dict(STM=1, ENC='"ext_ascii"', KMASK='1 + 16', NLET=26, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'match', 'differ']),
   J('timed-gb', 'c07.c', SCL, dict(STM=1, ENC='"gb"', KMASK='1 + 8', NLET=2, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'match', 'differ']),
   J('timed-turkish', 'c07.c', SCL, dict(STM=1, ENC='"utf-8"', LP=1, KMASK='1 + 2', NLET=9, L2LO=0xC4, L2HI=0xC4, MINC=1, NC=1, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'match', 'differ']),
   J('timed-sensitive', 'c07.c', SCL, dict(STM=1, SENS=1, KMASK=1, NLET=26, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=2), dict(NC=3), ['end', 'match', 'differ']),
   J('localized-sensitive', 'c07.c', SCL, dict(ENC='"utf-8"', LP=1, SENS=1, KMASK='1 + 2', NLET=9, L2LO=0xC4, L2HI=0xC4, MINC=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'match', 'differ']),
 ]),
 'C08': dict(jobs=[
   J('ascii', 'c08.c', SCL, dict(FLAGS=0, KMASK=1, NLET=2, NC=2, MINR=0, NR=2, MINH=0, NH=1), dict(NH=2), ['end']),
   J('gb', 'c08.c', SCL, dict(ENC='"gb"', FLAGS=0, KMASK='1 + 8', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end']),
   J('gb-noascii', 'c08.c', SCL, dict(ENC='"gb"', FLAGS=1, KMASK='1 + 8', NLET=1, NC=3, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'joined']),
   J('gb-words', 'c08.c', SCL, dict(ENC='"gb"', FLAGS=1, KMASK='1 + 8', NLET=1, NC=2, MINR=1, NR=2, MINH=1, NH=1), dict(NH=2), ['end', 'joined']),
   J('hyphens', 'c08.c', SCL, dict(ENC='"gb"', FLAGS=2, KMASK='1 + 8 + 64', NLET=1, NC=2, MINR=1, NR=2, MINH=1, NH=1), dict(NH=2), ['end', 'dropped']),
   J('hyphens-kept', 'c08.c', SCL, dict(ENC='"gb"', FLAGS=0, KMASK='1 + 64', NLET=1, NC=2, MINR=1, NR=2, MINH=1, NH=1), dict(NH=2), ['end']),
   J('both', 'c08.c', SCL, dict(ENC='"gb"', FLAGS=3, KMASK='1 + 8 + 64', NLET=1, NC=3, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'dropped', 'joined']),
   J('utf-8', 'c08.c', SCL, dict(ENC='"utf-8"', FLAGS=0, KMASK='1 + 2 + 4 + 32', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end']),
   J('history', 'c08.c', SCL, dict(NUT=2, ENC='"gb"', FLAGS=3, KMASK='1 + 64', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'dropped', 'joined']),
   J('long-words', 'c08.c', SCL, dict(PADC=30, MAXW=50, FLAGS=0, KMASK=1, NLET=2, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end']),
   J('long-runs', 'c08.c', SCL, dict(PADC=30, MAXL=60, ENC='"gb"', FLAGS=1, KMASK='1 + 8', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'joined']),
   J('timed', 'c08.c', SCL, dict(TIMED=1, ENC='"gb"', FLAGS=0, KMASK='1 + 8', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end']),
   J('timed-flags', 'c08.c', SCL, dict(TIMED=1, ENC='"gb"', FLAGS=3, KMASK='1 + 8 + 64', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end', 'dropped', 'joined']),
   J('guarani', 'c08.c', SCL, dict(ENC='"utf-8"', LP=8, FLAGS=0, KMASK='1 + 128', NLET=7, L2LO=0xC3, L2HI=0xC3, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NR=2), ['end']),
   J('guarani-noascii', 'c08.c', SCL, dict(ENC='"utf-8"', LP=8, FLAGS=3, KMASK='1 + 64 + 128', NLET=8, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'joined', 'dropped']),
   J('optional', 'c05.c', SCL, dict(CHARS=1, OPTD=1, FORMS=4, MINS=0, NSLOT=2, NH=1, LEN=2, LAST="'b'"), dict(NH=2), ['end', 'optional']),
   J('alternatives', 'c05.c', SCL, dict(CHARS=1, KLO=1, KINDS=4, MINS=1, NSLOT=1, NH=1, LEN=2, LAST="'b'"), dict(NH=2), ['end']),
   J('utf-8-noascii', 'c08.c', SCL, dict(ENC='"utf-8"', FLAGS=1, KMASK='1 + 2 + 4 + 64', NLET=1, NC=2, MINR=1, NR=1, MINH=1, NH=1), dict(NC=3), ['end', 'joined']),
 ]),
 'C09': dict(jobs=[
   J('one-word', 'c09.c', SCL, dict(ALGO=1, FLAGS=1, KMASK=1, NLET=2, EXTRACOL='""', NLEX=2, LEXC=3, MINF=1, NF=1, FC=3, MINU=1, NU=1, UC=3), dict(NF=2), ['end', 'joined', 'correct']),
   J('words', 'c09.c', SCL, dict(ALGO=1, FLAGS=1, KMASK=1, NLET=2, EXTRACOL='" x"', NLEX=2, LEXC=2, MINF=0, NF=2, FC=2, MINU=1, NU=2, UC=2), dict(NLEX=3), ['end', 'joined', 'correct']),
   J('gb', 'c09.c', SCL, dict(ENC='"gb"', ALGO=1, FLAGS=0, KMASK='1 + 8', NLET=1, EXTRACOL='""', NLEX=1, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=3), dict(NF=2), ['end', 'joined', 'correct']),
   J('gb-too', 'c09.c', SCL, dict(ENC='"gb"', ALGO=1, FLAGS=1, KMASK='1 + 8', NLET=1, EXTRACOL='""', NLEX=1, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=3), dict(NF=2), ['end', 'joined', 'correct']),
   J('lexicon', 'c09.c', SCL, dict(ALGO=1, FLAGS=1, KMASK=1, NLET=1, EXTRACOL='" x y"', NLEX=3, LEXC=3, MINF=0, NF=2, FC=3, MINU=2, NU=2, UC=2), dict(UC=3), ['end', 'joined', 'correct']),
   J('history', 'c09.c', SCL, dict(NUT=2, ALGO=1, FLAGS=1, KMASK=1, NLET=1, EXTRACOL='""', NLEX=2, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=2), dict(NU=2), ['end', 'joined', 'correct']),
   J('many', 'c09.c', SCL, dict(PADL=130, ALGO=1, FLAGS=1, KMASK=1, NLET=2, EXTRACOL='" x"', NLEX=2, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=2), dict(NF=2), ['end', 'joined', 'correct']),
   J('sensitive', 'c09.c', SCL, dict(SENS=1, ALGO=1, FLAGS=1, KMASK=1, NLET=2, EXTRACOL='""', NLEX=2, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=2), dict(NF=2), ['end', 'joined', 'correct']),
   J('hypothesis-sensitive', 'c09.c', SCL, dict(SENS=1, ALGO=2, FLAGS=1, KMASK=1, NLET=2, EXTRACOL='""', NLEX=2, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=2), dict(NF=2), ['end', 'joined', 'correct']),
   J('long', 'c09.c', SCL, dict(MAXW=14, ALGO=1, FLAGS=1, KMASK=1, NLET=1, EXTRACOL='""', NLEX=1, LEXC=6, MINF=1, NF=1, FC=6, MINU=1, NU=1, UC=7), dict(UC=9), ['end', 'joined', 'correct']),
   J('utf-8', 'c09.c', SCL, dict(ENC='"utf-8"', ALGO=1, FLAGS=0, KMASK='1 + 2', NLET=1, L2LO=0xC3, L2HI=0xC3, EXTRACOL='""', NLEX=1, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=3), dict(NF=2), ['end', 'joined', 'correct']),
   J('hypothesis', 'c09.c', SCL, dict(ALGO=2, FLAGS=1, KMASK=1, NLET=2, EXTRACOL='""', NLEX=2, LEXC=2, MINF=0, NF=2, FC=2, MINU=1, NU=2, UC=2), dict(NLEX=3), ['end', 'joined', 'correct']),
   J('hypothesis-gb', 'c09.c', SCL, dict(ENC='"gb"', ALGO=2, FLAGS=0, KMASK='1 + 8', NLET=1, EXTRACOL='""', NLEX=1, LEXC=2, MINF=1, NF=1, FC=2, MINU=1, NU=1, UC=3), dict(NF=2), ['end', 'joined', 'correct']),
 ]),
 'C20': dict(jobs=[
   J('one-letter', 'c01.c', 'asclite', dict(ASC=1, NR=3, NH=3, MINR=0, MINH=0, LEN=1, LAST="'h'"), dict(NR=4, NH=4), ['sub', 'ins', 'del', 'end']),
   J('alternatives', 'c05.c', 'asclite', dict(ASC=1, KINDS=10, MINS=1, NSLOT=1, NH=3, LEN=1, LAST="'d'"), dict(NH=4), ['end']),
   J('two-slots', 'c05.c', 'asclite', dict(ASC=1, KINDS=5, MINS=2, NSLOT=2, NH=2, LEN=1, LAST="'d'"), dict(KINDS=7, NH=3), ['end']),
   J('optional', 'c05.c', 'asclite', dict(ASC=1, OPTD=1, FORMS=4, MINS=0, NSLOT=2, NH=2, LEN=1, LAST="'d'"), dict(NH=3), ['end', 'optional']),
   J('fragments', 'c05.c', 'asclite', dict(ASC=1, FRAG=1, FORMS=5, MINS=1, NSLOT=1, NH=2, LEN=2, LAST="'c'"), dict(LEN=3), ['end', 'loose']),
   J('both', 'c05.c', 'asclite', dict(ASC=1, FRAG=1, OPTD=1, FORMS=5, MINS=1, NSLOT=1, NH=2, LEN=2, LAST="'c'"), dict(NSLOT=2), ['end', 'loose', 'optional']),
   J('two-letter', 'c01.c', 'asclite', dict(ASC=1, NR=2, NH=2, MINR=1, MINH=1, LEN=2, LAST="'d'"), dict(NR=3, NH=2), ['sub', 'ins', 'del', 'end']),
   J('history', 'c01.c', 'asclite', dict(ASC=1, NU=3, NR=2, NH=2, MINR=0, MINH=1, LEN=1, LAST="'b'"), dict(MINH=0, LAST="'c'"), ['sub', 'ins', 'del', 'end']),
   J('large', 'c01.c', 'asclite', dict(ASC=1, NU=2, PADS='{112,3},{2,115}', NR=2, NH=1, MINR=1, MINH=0, LEN=1, LAST="'b'"), dict(NH=2), ['sub', 'ins', 'del', 'end']),
   J('square', 'c01.c', 'asclite', dict(ASC=1, NU=1, PADS='{24,26}', NR=2, NH=2, MINR=2, MINH=2, LEN=1, LAST="'d'"), dict(NR=3), ['sub', 'ins', 'end']),
   J('long-words', 'c01.c', 'asclite', dict(ASC=1, LONG=200, STEM='"thequickbrownfoxjumpsoverthelazydogandthequickbrownfoxjumpsoverthelazydog"', TAIL='"ing"', NR=2, NH=2, MINR=1, MINH=1, LEN=2, LAST="'c'"), dict(NR=3), ['sub', 'ins', 'del', 'end']),
   J('characters', 'c01.c', 'asclite', dict(ASC=1, CHARS=1, SENS=1, FIRST="'!'", NR=2, NH=2, MINR=1, MINH=1, LEN=2, LAST="'~'"), dict(NR=3), ['sub', 'ins', 'del', 'end']),
   J('more-kinds', 'c05.c', 'asclite', dict(ASC=1, KLO=10, KINDS=20, MINS=1, NSLOT=1, NH=2, LEN=1, LAST="'d'"), dict(NH=4), ['end']),
   J('alt-history', 'c05.c', 'asclite', dict(ASC=1, NU=2, KLO=1, KINDS=6, MINS=1, NSLOT=1, NH=2, LEN=1, LAST="'b'"), dict(KINDS=10), ['end']),
   J('alt-many', 'c05.c', 'asclite', dict(ASC=1, PADN=20, KINDS=20, MINS=1, NSLOT=1, NH=1, LEN=1, LAST="'b'"), dict(NH=2), ['end']),
   J('no-options', 'c05.c', 'asclite', dict(ASC=1, FORMS=5, MINS=1, NSLOT=1, NH=2, LEN=2, LAST="'c'"), dict(NSLOT=2), ['end']),
   J('marks-history', 'c05.c', 'asclite', dict(ASC=1, NU=2, FRAG=1, OPTD=1, FORMS=5, MINS=1, NSLOT=1, NH=1, LEN=2, LAST="'b'"), dict(LAST="'c'"), ['end', 'loose', 'optional']),
   J('known-null', 'c05.c', 'asclite', dict(ASC=1, KF=1, KINDS=2, MINS=1, NSLOT=1, NH=1, LEN=1, LAST="'b'"), {}, []),
 ]),
}
