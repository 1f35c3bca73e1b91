"""Which programs and which models decide which property."""
from . import gen_alike, gen_arith, gen_cap, gen_cipher, gen_hist, gen_mass, gen_sig, gen_text, tlc


class Part:
    """Programs for the driver: chosen by make, or - with a model - the complete behaviours of the
    model, which make only fills with bytes."""

    def __init__(self, make, mode="par", name=None, model=None):
        self.make, self.mode, self.name, self.model = make, mode, name or make.__name__, model


class Model:
    def __init__(self, module, quick=None, thorough=None, **kw):
        self.module, self.cfgs, self.kw = module, {False: quick or module, True: thorough or quick or module}, kw

    def at(self, thorough):
        m = type(self).__new__(type(self))
        m.module, m.cfg, m.kw = self.module, self.cfgs[thorough], self.kw
        m.name = m.cfg
        return m

    def run(self):
        return tlc.model(self.module, self.cfg, **self.kw)


ENTROPY = Model("MCEntropy", "MCEntropy", "MCEntropyAll")
INTERLEAVE = Model("MCInterleave", "MCInterleave", "MCInterleaveAll")
MEMO = Model("MCMemo", "MCMemo", "MCMemoAll")

PARTS = {
    "P01": [Part(gen_sig.p01)], "P02": [Part(gen_sig.p02)], "P03": [Part(gen_sig.p03)], "P04": [Part(gen_sig.p04)],
    "P05": [Part(gen_sig.p05), Part(gen_sig.p05_serial, "serial")],
    "P06": [Part(gen_arith.p06)], "P07": [Part(gen_arith.p07), Part(gen_arith.p07_model, model=Model("MCBounds", "MCBounds", "MCBoundsAll"))], "P08": [Part(gen_arith.p08)], "P09": [Part(gen_arith.p09)],
    "P10": [Part(gen_cipher.p10)], "P11": [Part(gen_cipher.p11), Part(gen_cipher.p11_model, model=Model("MCCipher", "MCCipher", "MCCipherAll"))],
    "P12": [Part(gen_cipher.p12), Part(gen_cipher.p12_serial, "serial"),
            Part(gen_cipher.p12_model, model=ENTROPY),
            Part(gen_cipher.p12_turns, model=INTERLEAVE), Part(gen_cipher.p12_turns_global, "serial", model=INTERLEAVE),
            Part(gen_cipher.free_turns), Part(gen_cipher.nested)],
    "P13": [Part(gen_text.p13), Part(gen_text.p13_model, model=Model("MCText"))], "P14": [Part(gen_text.p14)],
    "P15": [Part(gen_hist.p15, "hist"), Part(gen_hist.p15_model, "hist", model=Model("MCHistory", "MCHistory", "MCHistoryAll"))],
    "P16": [Part(gen_hist.p16, "conc"), Part(gen_hist.p16, "race", "p16race"),
            Part(gen_hist.p16_par, "racealone"),
            Part(gen_cipher.free_turns), Part(gen_cipher.free_turns, "raceplain", "free_race"),
            Part(gen_cipher.nested)],
    "P17": [Part(gen_sig.p17), Part(gen_sig.p17_model, model=Model("MCSponge", "MCSponge", "MCSpongeAll"))], "P18": [Part(gen_cap.p18), Part(gen_cap.p18_model, model=Model("MCDispatch", "MCDispatch", "MCDispatchAll"))], "P19": [Part(gen_arith.p19)],
}

for _p in PARTS:
    if hasattr(gen_alike, _p.lower()):
        PARTS[_p].append(Part(getattr(gen_alike, _p.lower()), "serial", "alike_" + _p.lower(), model=MEMO))
    if hasattr(gen_mass, _p.lower()):
        PARTS[_p].append(Part(getattr(gen_mass, _p.lower()), name="mass_" + _p.lower()))


class SelfCheck(Model):
    """The overrides give the committed values (of the TLA+ definitions)."""

    def run(self):
        rc, out = tlc.run("SelfCheck", "SelfCheck.cfg", workers=1)
        got = tlc.items(out)
        ok = rc == 0 and got == open(tlc.SPEC + "/SelfCheck.expected").read().splitlines()
        return dict(tlc.stats(out), ok=ok, output=out)


SELF = SelfCheck("SelfCheck")
GROUP = Model("MCGroup", "MCGroup", "MCGroupAll")
SCALAR = Model("MCScalarMul", "MCScalarMul", "MCScalarMulAll")
SCHEME = Model("MCEdDSA", "MCEdDSA", "MCEdDSAAll")
MODELS = {
    "P01": [SCHEME], "P03": [SCHEME], "P04": [SCHEME], "P05": [SCHEME], "P10": [SCHEME, Model("MCCipher", "MCCipher", "MCCipherAll")], "P14": [Model("MCText")],
    "P06": [GROUP], "P08": [GROUP, SCALAR], "P19": [GROUP],
}

ASSUMPTIONS = [
    "TLC's evaluation of the specification, with the Java overrides of its number and hash operators checked against their TLA+ definitions by SelfCheck.tla",
    "the Go compiler, runtime and standard library",
    "the driver records the arguments and results of the calls faithfully",
]


def parts(prop):
    return PARTS[prop]


def models(prop, thorough):
    return [m.at(thorough) for m in MODELS.get(prop, []) + [SELF]]
