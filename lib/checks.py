"""Which harness binaries decide which property."""
import build

def cpu(*flags):
    def f():
        have = set(open("/proc/cpuinfo").read().split())
        return all(x in have for x in flags)
    return f

def codec_runs(check, marches):
    need = {"avx512": cpu("avx512f", "avx512bw", "avx512vl", "avx512vbmi"), "avx2": cpu("avx2")}
    return [{"build": (lambda m=m: build.codec(m)), "check": check, "variant": m, "weight": w, "needs": need.get(m)} for m, w in marches]

def sim_runs(*checks):
    return [{"build": build.sim, "check": c.split(":")[0], "variant": "sim", "weight": int((c + ":1").split(":")[1])} for c in checks]

def poll_runs(*checks):
    return [{"build": (lambda: build.sim(poll=True)), "check": c.split(":")[0], "variant": "poll", "weight": int((c + ":1").split(":")[1]), "as": "E01"} for c in checks]

def mod_runs(*checks):
    r = []
    for c in checks:
        w = int((c + ":1").split(":")[1]); n = c.split(":")[0]
        r += [{"build": build.mods, "check": n, "variant": "libc", "weight": 2 * w}, {"build": (lambda: build.mods(True)), "check": n, "variant": "rpmalloc", "weight": w}]
    return r

def conf_runs(*checks):
    return [{"build": build.conf, "check": c, "variant": "conf", "weight": 1} for c in checks]

CHECKS = {
    "W01": {"runs": codec_runs("W01", [("avx2", 2), ("sse", 1), ("scalar", 1), ("avx512", 1)]), "secs": 16},
    "W04": {"runs": codec_runs("W04", [("avx2", 2), ("sse", 1), ("scalar", 1), ("avx512", 1)]), "secs": 16},
    "W03": {"runs": codec_runs("W03", [("avx2", 1)]), "secs": 12},
    "W02": {"runs": codec_runs("W02.dec", [("avx2", 1), ("scalar", 1)]), "secs": 12},
    "K01": {"runs": codec_runs("K01", [("avx2", 1)]), "secs": 12},
    "M01": {"runs": sim_runs("M01"), "secs": 24},
    "M02": {"runs": sim_runs("M02"), "secs": 20},
    "M03": {"runs": sim_runs("M03"), "secs": 24},
    "M04": {"runs": sim_runs("M04.frames", "M04.requests", "M04.flood"), "secs": 34},
    "M05": {"runs": sim_runs("M05"), "secs": 24},
    "H01": {"runs": sim_runs("H01"), "secs": 20},
    "H02": {"runs": sim_runs("H02"), "secs": 24},
    "H03": {"runs": sim_runs("H03.parse", "H03.server:2"), "secs": 28},
    "H04": {"runs": sim_runs("H04"), "secs": 20},
    "B01": {"runs": sim_runs("B01:3", "B01.tls"), "secs": 30},
    "B02": {"runs": sim_runs("B02"), "secs": 24},
    "R01": {"runs": sim_runs("R01"), "secs": 30},
    "R02": {"runs": sim_runs("R02"), "secs": 26},
    "R03": {"runs": sim_runs("R03"), "secs": 24},
    "R04": {"runs": sim_runs("R04:3", "R04.tls:2"), "secs": 36},
    "R05": {"runs": sim_runs("R05:3", "R05.http"), "secs": 34},
    "R06": {"runs": sim_runs("R06:3", "R06.pmd:2"), "secs": 34},
    "R07": {"runs": sim_runs("R07:2", "R07.tls:3"), "secs": 30},
    "H05": {"runs": sim_runs("H05"), "secs": 24},
    "X01": {"runs": sim_runs("X01"), "secs": 20},
    "X02": {"runs": sim_runs("X02:2", "X02.broadcast"), "secs": 28},
    "S01": {"runs": sim_runs("S01"), "secs": 26},
    "S02": {"runs": sim_runs("S02"), "secs": 28},
    "S03": {"runs": sim_runs("S03"), "secs": 22},
    "D01": {"runs": mod_runs("D01"), "secs": 24},
    "D02": {"runs": mod_runs("D02"), "secs": 24},
    "D03": {"runs": mod_runs("D03"), "secs": 24},
    "D04": {"runs": mod_runs("D04:2", "D04.str"), "secs": 30},
    "E01": {"runs": poll_runs("M01", "B01:2", "B02:2", "R01:2", "R03", "R04:2", "R04.tls", "S01", "R02"), "secs": 52},
    "C01": {"runs": conf_runs("C01"), "secs": 20},
    "C02": {"runs": conf_runs("C02"), "secs": 16},
    "X03": {"runs": sim_runs("X03"), "secs": 22},
}
