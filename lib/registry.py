"""Which harness, in which build, with how many cases, decides which property."""
STD = ["emv", "iso7816", "iso8825", "iso8859"]
BOOST = ["-lboost_locale", "-lboost_thread", "-lboost_system"]
STR = ["emv_strings"] + STD
HIDE = ["-Wl," + ",".join("--wrap=" + f for f in ("strtok", "localtime", "gmtime", "ctime", "asctime", "rand", "random", "srand", "setlocale"))]
JSON = ["-ljson-c"] + BOOST


def runs(src, groups, libs, quick, thorough, vg_quick=60, vg_thorough=2000, **kw):
    src = [src] if isinstance(src, str) else src
    tag = kw.pop("tag", "")
    out = [dict(sources=src, groups=groups, libs=libs, mode="asan", quick=quick, thorough=thorough, tag=tag + "asan", **kw)]
    if vg_quick:
        out.append(dict(sources=src, groups=groups, libs=libs, mode="vg", quick=vg_quick, thorough=vg_thorough, tag=tag + "vg", **kw))
    return out


def kernel(prefix, quick, thorough, **kw):
    return dict(runs=runs("h_kernel.cpp", STD, BOOST, quick, thorough, args=["--prefix", prefix], **kw))


REG = {
    "C01": dict(runs=runs("h_ber.cpp", ["iso8825"], [], 120000, 4000000, vg_quick=200)),
    "C02": dict(runs=runs("h_tlv.cpp", STD, BOOST, 60000, 1600000, vg_quick=150)),
    "C03": dict(runs=runs("h_dol.cpp", STD, BOOST, 60000, 1600000, vg_quick=150)),
    "C04": dict(runs=runs(["h_ttl.cpp", "shim_apdu.c"], STD, BOOST, 60000, 2000000, vg_quick=150, args=["--prefix", "tpdu"])),
    "C05": dict(runs=runs(["h_ttl.cpp", "shim_apdu.c"], STD, BOOST, 60000, 2000000, vg_quick=150, args=["--prefix", "apdu"])),
    "C06": kernel("cand", 24000, 600000, vg_quick=150),
    "C07": kernel("sel", 18000, 400000, vg_quick=150),
    "C08": kernel("init", 18000, 400000, vg_quick=150),
    "C09": kernel("read", 15000, 400000, vg_quick=150),
    "C10": kernel("hostile", 9000, 240000, vg_quick=150),
    "C11": kernel("oom", 9000, 120000, vg_quick=120),
    "C12": kernel("hist", 9000, 240000, vg_quick=120),
    "C13": dict(runs=runs("h_atr.cpp", STD, BOOST, 180000, 6000000, vg_quick=150)),
    "C14": dict(runs=runs("h_fields.cpp", STD, BOOST, 180000, 6000000, vg_quick=150)),
    "C16": dict(runs=runs("h_iso8859.cpp", ["iso8859"], BOOST, 60000, 3000000, vg_quick=200, tag="boost")
                + runs("h_iso8859.cpp", ["iso8859_iconv"], [], 30000, 1000000, vg_quick=200, tag="iconv")
                + runs("h_iso8859.cpp", ["iso8859_simple"], [], 30000, 1000000, vg_quick=200, tag="simple", cflags=["-DSIMPLE"])),
    "C15": dict(runs=runs("h_conv.cpp", STR, JSON, 180000, 6000000, vg_quick=100)),
    "C17": dict(runs=runs("h_strings.cpp", STR, JSON, 60000, 2000000, vg_quick=200, args=["--prefix", "buf"])),
    "C18": dict(runs=runs("h_strings.cpp", STR, JSON, 150000, 3000000, vg_quick=0, args=["--prefix", "bits"])),
    "C20": dict(runs=runs(["h_isotext.cpp", "shim_apdu.c"], STR, JSON, 90000, 2000000, vg_quick=12, vg_thorough=200)),
    "C21": dict(runs=runs("h_codes.cpp", STR, JSON, 8000, 100000, vg_quick=24, vg_thorough=400)),
    "C22": dict(runs=runs(["h_decode.cpp", "shim_print.c", "repo:tools/emv-decode.c", "repo:tools/print_helpers.c"], STR, JSON, 20000, 600000, vg_quick=20, vg_thorough=400, per_file={"emv-decode.c": ["-Dmain=emv_decode_main"]})),
    "C23": dict(runs=runs(["h_debug.cpp", "shim_debug.c"] + ["shim_debug%d.c" % i for i in range(9)], STD, BOOST, 30000, 800000, vg_quick=60)),
    "C24": dict(runs=runs("h_pcsc.cpp", ["pcsc"], [], 20000, 1000000, vg_quick=60, per_file={"pcsc.c": ["-DUSE_PCSCLITE", "-DHAVE_ARPA_INET_H", "-Dfprintf=vh_quiet_fprintf"]})),
    "C25": dict(runs=[dict(sources=["h_threads.cpp", "shim_apdu.c", "shim_thread.c"], groups=STR[:1] + STD, libs=JSON + HIDE, mode=m, quick=q, thorough=t, tag=m)
                      for m, q, t in (("tsan", 1500, 60000), ("asan", 800, 30000))]),
    "C26": dict(runs=runs(["h_tool.cpp", "shim_print.c", "repo:tools/emv-tool.c", "repo:tools/print_helpers.c"], STR + ["pcsc"], JSON, 6000, 300000, vg_quick=20, vg_thorough=300, per_file={
        "pcsc.c": ["-DUSE_PCSCLITE", "-DHAVE_ARPA_INET_H", "-Dfprintf=vh_quiet_fprintf"],
        "emv-tool.c": ["-Dmain=emv_tool_main", "-Dtime=tool_time", "-Demv_strings_init=tool_strings_init", "-Dprint_emv_debug=tool_debug", "-Dprint_emv_debug_verbose=tool_debug_verbose"]})),
    "C19": dict(runs=runs("h_annot.cpp", STR, JSON, 180000, 6000000, vg_quick=20, vg_thorough=300)),
}

# cases of the guided stage (asan build), relative to the weights of the random suites
GUIDED = {
    "C01": (80000, 2000000), "C02": (40000, 1000000), "C03": (40000, 600000), "C04": (60000, 1500000), "C05": (60000, 1500000),
    "C06": (16000, 300000), "C07": (10000, 200000), "C08": (12000, 250000), "C09": (12000, 250000), "C10": (5000, 100000), "C11": (6000, 80000),
    "C12": (5000, 100000), "C13": (500000, 8000000), "C14": (200000, 4000000), "C15": (150000, 3000000), "C16": (80000, 1500000), "C17": (80000, 1500000),
    "C18": (60000, 1500000), "C19": (100000, 2000000), "C20": (80000, 1000000), "C22": (6000, 100000), "C23": (15000, 300000), "C24": (10000, 250000),
}
for _p, (_q, _t) in GUIDED.items():
    for _r in REG[_p]["runs"]:
        if _r["mode"] == "asan":
            _r["guided_quick"], _r["guided_thorough"] = _q, _t
