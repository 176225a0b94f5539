"""One function per property: which drivers are run and which specifications decide them."""
import os
import random
import re

import vlib

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def trace_cfg(consts="", invariants=""):
    return "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + \
        ("CONSTANTS\n" + consts + "\n" if consts else "") + \
        ("INVARIANTS " + invariants + "\n" if invariants else "")


def history_model(c, module, consts, invariants="", properties="", what=""):
    """The specification itself, exhaustively, within the bounds of the constants."""
    c.model(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n " + consts + "\n"
            + ("INVARIANTS " + invariants + "\n" if invariants else "")
            + ("PROPERTIES " + properties + "\n" if properties else ""), what=what)


@check("D01")
def bitstream(c):
    n = c.scale(3, 4)
    c.model("BitStreamMC", "SPECIFICATION MCSpec\nCONSTANTS\n Magic = 26\n MaxBits = %d\n MaxPiece = %d\n"
            "INVARIANTS RoundTrip WholeBytes Progress ReadsArePrefix DryMeansAll\nCHECK_DEADLOCK FALSE\n"
            % (c.scale(9, 12), n), what="all writes up to %d bits" % c.scale(9, 12))
    exe = vlib.build("bitstream", "bitstream.cpp", "asan")
    c.conformance(exe, "BitStreamTrace", c.scale(12000, 60000), cfg=trace_cfg(" Magic = 26", "Progress RoundTrip"))


@check("D02")
def base64(c):
    c.model("Base64MC", "SPECIFICATION Spec\nCONSTANTS\n Bytes = {0, 1, 63, 128, 252, 255}\n"
            " Symbols = {65, 47, 57, 61, 64, 200}\n MaxBytes = %d\n MaxSymbols = %d\nINVARIANTS Lossless Faithful\n"
            "CHECK_DEADLOCK FALSE\n" % (c.scale(5, 6), c.scale(5, 8)), what="short inputs over edge symbols")
    exe = vlib.build("base64", "base64.cpp", "asan")
    c.conformance(exe, "Base64Trace", c.scale(24000, 120000))


@check("D03")
def huffman(c):
    c.model("HuffmanMC", "SPECIFICATION Spec\nCONSTANTS\n Magic = 26\n MaxSymbols = %d\n Freqs = {1, 2, 3, 5, 8, 13}\n"
            " Limits = {2, 3, 4, 5}\nINVARIANTS TableIsAccepted PrefixFree\nCHECK_DEADLOCK FALSE\n" % c.scale(7, 9),
            what="length limiting and canonical codes")
    exe = vlib.build("huffman", "huffman.cpp", "asan")
    c.conformance(exe, "HuffmanTrace", c.scale(12000, 60000), cfg=trace_cfg(" Magic = 26"))


@check("C01")
def container(c):
    c.model("ContainerMC", "SPECIFICATION Spec\nCONSTANTS\n Producers = {p1, p2}\n Consumers = {c1%s}\n TimedConsumers = {t1}\n"
            " PerProducer = 2\n PerConsumer = 2\nINVARIANTS FIFO NoLostWakeup\nCHECK_DEADLOCK FALSE\n" % c.scale("", ", c2"),
            what="mutex and condition variable algorithm")
    exe = vlib.build("container", "container.cpp", "vsched")
    c.conformance(exe, "ContainerTrace", c.scale(7500, 30000))


def task_model(c, restarts, runners="{r1}", parallel="{p1}", per=3, what=""):
    c.model("TaskMC", "SPECIFICATION Spec\nCONSTANTS\n Workers = {w1, w2}\n PerRunner = %d\n Runners = %s\n Parallel = %s\n"
            " Delayed = {2}\n Restarts = %d\n Requeue = TRUE\nINVARIANTS InOrder OneAtATime Once Barrier\n"
            "PROPERTY NothingLost\nCHECK_DEADLOCK FALSE\n" % (per, runners, parallel, restarts), what=what)


@check("C02")
def tasks(c):
    task_model(c, c.scale(1, 2), per=c.scale(2, 3), what="workers, timer and runners, stopped and started")
    exe = vlib.build("tasks", "tasks.cpp", "vsched")
    c.conformance(exe, "TasksTrace", c.scale(6000, 60000), cfg=trace_cfg("", "Exclusive NothingRunsStopped"))


@check("C03")
def sequenced(c):
    task_model(c, 0, "{r1, r2}", "{}", c.scale(3, 4), what="two sequenced runners")
    exe = vlib.build("tasks", "tasks.cpp", "vsched")
    c.conformance(exe, "TasksTrace", c.scale(5000, 60000), args=["--mode", "sequenced"],
                  cfg=trace_cfg("", "Exclusive NothingRunsStopped"))


@check("C04")
def lifetime(c):
    task_model(c, c.scale(2, 3), "{r1}", "{}", 2, what="stopping")
    exe = vlib.build("tasks", "tasks.cpp", "vsched")
    c.conformance(exe, "TasksTrace", c.scale(7500, 60000), args=["--mode", "lifetime"],
                  cfg=trace_cfg("", "Exclusive NothingRunsStopped"))


@check("C05")
def logger(c):
    for mode in ("TRUE", "FALSE"):
        history_model(c, "LoggerMC", "Threads = {1, 2} Async = %s Records = %d" % (mode, c.scale(3, 4)),
                      "Once InOrder Numbered NoGaps Prompt NotStuck", what="asynchronous: " + mode)
    exe = vlib.build("logger", "logger.cpp", "vsched")
    c.conformance(exe, "LoggerTrace", c.scale(6000, 60000))


@check("C06")
def registry(c):
    history_model(c, "RegistryMC", 'Threads = {1, 2} Names = {"a", "b"} MaxLoggers = %d MaxGets = %d' % c.scale((2, 1), (3, 2)),
                  "Unique Findable Free Counted HeldIsFound", "Answers", what="two threads")
    exe = vlib.build("registry", "registry.cpp", "vsched")
    c.conformance(exe, "RegistryTrace", c.scale(7500, 30000), cfg=trace_cfg("", "Unique Findable"))


@check("C07")
def filesink(c):
    history_model(c, "FileSinkMC", "Loggers = {1} Records = %d Faults = 2" % c.scale(5, 6), "Numbered Complete Current", "Appended", what="sizes and failures")
    history_model(c, "FileSinkMC", "Loggers = {1, 2} Records = 2 Faults = %d" % c.scale(1, 2), "Numbered Complete Current", "Appended Apart", what="two loggers in one directory")
    exe = vlib.build("filesink", "filesink.cpp", "asan")
    c.conformance(exe, "FileSinkTrace", c.scale(3000, 20000), cfg=trace_cfg("", "Numbered"))


@check("C08")
def pathmonitor(c):
    history_model(c, "PathMonitorMC", "Threads = {1, 2} Dirs = {1} MaxCalls = 3 MaxEvents = %d MaxFailures = 1" % c.scale(2, 3),
                  "WatchedIffWanted NeverAfter", "Own Drains", what="two threads")
    exe = vlib.build("pathmonitor", "pathmonitor.cpp", "vsched")
    c.conformance(exe, "PathMonitorTrace", c.scale(4000, 40000), cfg=trace_cfg("", "WatchedIffWanted"))


@check("C09")
def config(c):
    history_model(c, "ConfigMC", "Threads = {1, 2} MaxCalls = 2 MaxWrites = %d" % c.scale(1, 2), "OneEach Settled", "Follows", what="two threads")
    exe = vlib.build("config", "config.cpp", "vsched")
    c.conformance(exe, "ConfigTrace", c.scale(3000, 20000))


@check("D05")
def coder_files(c):
    c.model("CoderFileMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d MaxSteps = %d\nINVARIANTS Conforms ThereAndBack\nPROPERTIES Untouched\n"
            "CHECK_DEADLOCK FALSE\n" % c.scale((1, 3), (2, 4)), what="coding from file to file, by pieces which may fail")
    exe = vlib.build("coderfile", "coderfile.cpp", "asan")
    c.conformance(exe, "CoderFileTrace", c.scale(24000, 120000))


@check("N01")
def service(c):
    history_model(c, "ServiceMC", "Threads = {1, 2} Sockets = %s MaxRequests = %d MaxData = 1" % c.scale(("{1}", 2), ("{1}", 3)),
                  "Once InOrder NotStuck", what="one socket")
    history_model(c, "ServiceMC", "Threads = {1} Sockets = {1, 2} MaxRequests = 2 MaxData = %d" % c.scale(0, 1), "Once InOrder NotStuck", what="two sockets")
    exe = vlib.build("service", "service.cpp", "vsched")
    c.conformance(exe, "ServiceTrace", c.scale(7500, 60000))


@check("N02")
def tcp(c):
    rules = "NoInvention AcceptedOnce Paired Delivered Whole", "Final StaysClosed Grows"
    history_model(c, "TcpMC", "Clients = {1} Most = 1 MaxOps = 6 Faults = 0 Graceful = TRUE", *rules, what="ends closed when they have all")
    history_model(c, "TcpMC", "Clients = {1} Most = 1 MaxOps = %d Faults = 1 Graceful = FALSE" % c.scale(3, 5), *rules, what="failures")
    if c.tier == "thorough":
        history_model(c, "TcpMC", "Clients = {1, 2} Most = 1 MaxOps = 6 Faults = 0 Graceful = TRUE", *rules, what="two clients")
    exe = vlib.build("tcp", "tcp.cpp", "vsched")
    c.conformance(exe, "TcpTrace", c.scale(3000, 30000), cfg=trace_cfg("", "NoInvention AcceptedOnce"))


@check("N03")
def udp(c):
    history_model(c, "UdpMC", "MaxOps = %d Messages = {1, 3} MaxFaults = 1" % c.scale(2, 3), "Packets Order Kept", what="two sockets")
    exe = vlib.build("udp", "udp.cpp", "vsched")
    c.conformance(exe, "UdpTrace", c.scale(5000, 50000))


@check("N04")
def ownership(c):
    history_model(c, "OwnershipMC", "MaxHandle = %d" % c.scale(3, 4), "OneOwner", "Travels Single", what="moves and closes")
    exe = vlib.build("ownership", "ownership.cpp", "asan")
    c.conformance(exe, "OwnershipTrace", c.scale(15000, 90000), cfg=trace_cfg("", "OneOwner"))


@check("N06")
def endpoints(c):
    history_model(c, "EndpointsMC", "Max = 3 Bound = %d" % c.scale(6, 7), "Exclusive Mutual Answered", what="few sockets, addresses and ports")
    exe = vlib.build("endpoints", "endpoints.cpp", "asan")
    c.conformance(exe, "EndpointsTrace", c.scale(6000, 60000), cfg=trace_cfg("", "Exclusive Mutual"))


@check("N05")
def address(c):
    c.model("AddressMC", "SPECIFICATION Spec\nCONSTANTS\n Groups6 = %s\n Alphabet = {48, 97, 58}\n MaxLen = %d\n"
            "INVARIANTS RoundTrip6 RoundTrip4 Texts\nCHECK_DEADLOCK FALSE\n" % (c.scale("{0, 10}", "{0, 1, 65535}"), c.scale(7, 10)),
            what="writing and reading are inverse")
    exe = vlib.build("address", "address.cpp", "asan")
    c.conformance(exe, "AddressTrace", c.scale(10000, 60000))




@check("S01")
def unicode(c):
    edges = "{0, 31, 32, 92, 126, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65534, 65535, 65536, 131071, 1048575, 1048576, 1114111}"
    c.model("UnicodeMC", "SPECIFICATION Spec\nCONSTANTS\n Points = %s\n Units8 = {65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, "
            "237, 239, 240, 244, 245}\n Units16 = {65, 55295, 55296, 56319, 56320, 57343, 57344, 65535}\n MaxLen = %d\n"
            "INVARIANTS Survives Canonical Synchronised ConvertsBack\nCHECK_DEADLOCK FALSE\n" % (c.scale(edges, "0..1114111"), c.scale(3, 5)),
            what="short texts over edge units")
    exe = vlib.build("unicode", "unicode.cpp", "asan")
    c.conformance(exe, "UnicodeTrace", c.scale(9000, 60000))


@check("S02")
def strings(c):
    c.model("StringsMC", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {97, 98, 42, 32}\n MaxLen = %d\n MaxPat = %d\n"
            "INVARIANTS Lengths Undone Inside Plain Surrounds SplitJoin Trimmed\nCHECK_DEADLOCK FALSE\n"
            % (c.scale(4, 6), c.scale(2, 3)), what="all short strings and patterns")
    exe = vlib.build("strings", "strings.cpp", "asan")
    c.conformance(exe, "StringsTrace", c.scale(6000, 40000))


@check("S03")
def lexer(c):
    history_model(c, "LexerMC", "Alphabet = {48, 49, 57, 97, 120} MaxLen = %d" % c.scale(4, 6), "Consumed", what="all short texts")
    c.model("NumeralsMC", "SPECIFICATION Spec\nCONSTANT Bound = %d\nINVARIANTS Arithmetic Reads Reals\nCHECK_DEADLOCK FALSE\n"
            % c.scale(3000, 70000), what="arithmetic on digits")
    exe = vlib.build("lexer", "lexer.cpp", "asan")
    c.conformance(exe, "LexerTrace", c.scale(20000, 120000))


def numerals_model(c):
    c.model("NumeralsMC", "SPECIFICATION Spec\nCONSTANT Bound = %d\nINVARIANTS Arithmetic Reads Reals\nCHECK_DEADLOCK FALSE\n"
            % c.scale(3000, 70000), what="arithmetic on digits")


@check("S05")
def convert(c):
    numerals_model(c)
    exe = vlib.build("convert", "convert.cpp", "asan")
    c.conformance(exe, "NumeralsTrace", c.scale(7500, 80000))


def literal_table(c, count):
    """Integer literals, each with what the compiler says about it: accepted, or refused."""
    rng = random.Random(c.seed)
    types = {"i8": "std::int8_t", "i16": "std::int16_t", "i32": "std::int32_t", "i64": "std::int64_t", "u8": "std::uint8_t",
             "u16": "std::uint16_t", "u32": "std::uint32_t", "u64": "std::uint64_t", "zu": "std::size_t"}
    entries = []
    for _ in range(count):
        ty = rng.choice(sorted(types))
        bits = 64 if ty == "zu" else int(ty[1:])
        if ty[0] == "i":
            bits -= 1
        kind = rng.randrange(6)
        if kind < 3:
            v = 2 ** (bits if rng.random() < 0.7 else rng.choice([8, 16, 32, 63, 64, 65, 70])) + rng.choice([-2, -1, 0, 1, 5])
        elif kind == 3:
            v = rng.randrange(300)
        elif kind == 4:
            v = rng.getrandbits(rng.randrange(1, 68))
        else:
            v = 2 ** 64 * rng.randrange(1, 40) + rng.randrange(200)
        base = rng.choice(["", "", "0", "0x", "0X", "0b", "0B"])
        digits = {"": "%d", "0": "%o", "0x": "%x", "0X": "%X"}.get(base)
        text = base + (digits % v if digits else bin(v)[2:])
        if rng.random() < 0.3:
            for _ in range(rng.randrange(1, 4)):
                at = rng.randrange(1, max(2, len(text)))
                if at < len(text) and text[at - 1].isalnum() and text[at].isalnum() and (at > 2 or base in ("", "0")):
                    text = text[:at] + "'" + text[at:]
        entries.append((ty, text))
    path = os.path.join(c.dir, "probe.cpp")
    with open(path, "w") as f:
        f.write('#include "fly/types/numeric/literals.hpp"\nusing namespace fly::literals::numeric_literals;\n')
        f.write("".join("auto v%d = %s_%s;\n" % (k, t, ty) for k, (ty, t) in enumerate(entries)))
    r = vlib.sh(["g++", "-std=c++20", "-w", "-fmax-errors=0", "-fsyntax-only", "-I" + vlib.REPO, path])
    refused = set(int(m) - 3 for m in re.findall(r"probe\.cpp:(\d+):\d+: error", r.stdout))
    if any(k < 0 for k in refused):
        raise vlib.CheckError("the literals cannot be compiled:\n" + r.stdout[:3000])
    # what is refused within the library is reported there, with the place where the literal is written
    refused |= set(int(m) - 3 for m in re.findall(r"probe\.cpp:(\d+):\d+: +in .constexpr. expansion", r.stdout))
    # every literal which is not refused must compile without the others
    with open(os.path.join(c.dir, "literals.inc"), "w") as f:
        for k, (ty, t) in enumerate(entries):
            q = '"%s"' % t
            if k in refused:
                f.write("[]() { return refused<%s>(%s); },\n" % (types[ty], q))
            else:
                f.write("[]() { return value<%s>(%s, %s_%s); },\n" % (types[ty], q, t, ty))
    return len(entries), len(refused)


@check("D04")
def numeric(c):
    numerals_model(c)
    n, refused = literal_table(c, c.scale(1200, 8000))
    c.notes["literals"] = {"tried": n, "refused": refused}
    exe = vlib.build("numeric", "numeric.cpp", "asan", extra_flags=["-I" + c.dir], with_fly=False)
    c.conformance(exe, "NumeralsTrace", n // 10)


def json_text_model(c):
    c.model("JsonTextMC", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {91, 93, 123, 125, 44, 58, 34, 49, 45, 46, 101, 47, 42, 92, 32}\n"
            " MaxLen = %d\n Words <- QuickWords\nINVARIANTS Monotone Written Blanks Complete\nCHECK_DEADLOCK FALSE\n" % c.scale(3, 5),
            what="all short texts of an alphabet")


@check("J01")
def json_reading(c):
    json_text_model(c)
    exe = vlib.build("jsontext", "jsontext.cpp", "asan")
    c.conformance(exe, "JsonTextTrace", c.scale(9000, 60000))


@check("J02")
def json_writing(c):
    json_text_model(c)
    exe = vlib.build("jsontext", "jsontext.cpp", "asan")
    c.conformance(exe, "JsonTextTrace", c.scale(9000, 60000), args=["--write"])


@check("J03")
def json_tree(c):
    c.model("JsonTreeMC", "SPECIFICATION Spec\nCONSTANTS\n MaxSize = %d\nCONSTRAINT Small\n"
            "INVARIANTS Sorted\nPROPERTIES Unharmed MergeLosesNothing\nCHECK_DEADLOCK FALSE\n" % c.scale(1, 2),
            what="operations on values of up to %d elements" % c.scale(1, 2))
    exe = vlib.build("jsontree", "jsontree.cpp", "asan")
    c.conformance(exe, "JsonTreeTrace", c.scale(15000, 90000), cfg=trace_cfg("", "Sorted"))


@check("J04")
def json_iterators(c):
    consts = " Slots = {1, 2%s}\n Docs = {1, 2}"
    c.model("JsonIteratorMC", "SPECIFICATION Spec\nCONSTANTS\n%s\n MaxLen = %d\nINVARIANTS Standing Answered Complete\nCHECK_DEADLOCK FALSE\n"
            % (consts % c.scale("", ", 3"), c.scale(2, 3)), what="documents of up to %d elements" % c.scale(2, 3))
    exe = vlib.build("jsoniter", "jsoniter.cpp", "asan")
    c.conformance(exe, "JsonIteratorTrace", c.scale(20000, 120000), cfg=trace_cfg(consts % ", 3, 4", "Standing"))


@check("J05")
def json_order(c):
    c.model("JsonOrderMC", "SPECIFICATION Spec\nCONSTANT Deep = %s\nINVARIANTS Trichotomy Transitive Equivalence Congruent\nCHECK_DEADLOCK FALSE\n"
            % c.scale("FALSE", "TRUE"), what="all triples of values from a set with every type")
    exe = vlib.build("jsonorder", "jsonorder.cpp", "asan")
    c.conformance(exe, "JsonOrderTrace", c.scale(15000, 90000))


@check("J06")
def json_conversions(c):
    c.model("JsonConvertMC", "SPECIFICATION Spec\nCONSTANT Deep = %s\nINVARIANTS Returns Texts1 Refuses\nCHECK_DEADLOCK FALSE\n" % c.scale("FALSE", "TRUE"),
            what="values of scalar, list, array and map types")
    exe = vlib.build("jsonconvert", "jsonconvert.cpp", "asan")
    c.conformance(exe, "JsonConvertTrace", c.scale(6000, 40000))


@check("P01")
def ini_reading(c):
    c.model("IniMC", "SPECIFICATION Spec\nCONSTANT MaxLines = %d\nINVARIANTS Rebuilt Shape\nCHECK_DEADLOCK FALSE\n" % c.scale(3, 4),
            what="files of up to %d lines" % c.scale(3, 4))
    exe = vlib.build("ini", "ini.cpp", "asan")
    c.conformance(exe, "IniTrace", c.scale(10000, 80000))


@check("P02")
def parsing_files(c):
    c.model("ParserFileMC", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS ReadBack Cut\nCHECK_DEADLOCK FALSE\n" % c.scale(3, 4),
            what="texts of up to %d characters in every encoding" % c.scale(3, 4))
    exe = vlib.build("parserfile", "parserfile.cpp", "asan")
    c.conformance(exe, "ParserFileTrace", c.scale(6000, 40000))


@check("S04")
def formatted(c):
    c.model("FormatMC", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nCONSTANT Bound = %d\nINVARIANTS Grammar Doubled Rounding Scientific General Widthed\nCHECK_DEADLOCK FALSE\n"
            % (c.scale(3, 5), c.scale(1200, 30000)), what="format strings with fields of up to %d characters" % c.scale(3, 5))
    exe = vlib.build("format", "format.cpp", "asan")
    c.conformance(exe, "FormatTextTrace", c.scale(5000, 50000))


@check("Y01")
def y01(c):
    for vary in ("cpu", "proc", "mem"):
        c.model("MonitorMC", "SPECIFICATION Spec\nCONSTANT Deep = %s\nCONSTANT Vary = \"%s\"\nINVARIANTS Meaningful Again Fits2\nPROPERTIES KeepsOnFailure\n"
                "CHECK_DEADLOCK FALSE\n" % (c.scale("FALSE", "TRUE"), vary), what="samples and polls in any order (%s)" % vary)
    exe = vlib.build("monitor", "monitor.cpp", "vsched")
    c.conformance(exe, "MonitorTrace", c.scale(3000, 30000), cfg=trace_cfg("", "Meaningful"))


@check("Y02")
def y02(c):
    c.model("SignalsMC", "SPECIFICATION Spec\nCONSTANTS Caught = {1, 2} MaxScripts = 3 Signs = {1, 2, 3} Handlers = %d MaxScript = %d MaxOps = %d MaxArrivals = 1\n"
            "INVARIANTS MaskIsStack Called NothingOwed\nPROPERTIES EndsRightly NotLost NoneMeansNone\nCHECK_DEADLOCK FALSE\n"
            % (2, c.scale(1, 2), c.scale(3, 2)), what="handlers with all short scripts")
    exe = vlib.build("signals", "signals.cpp", "asan")
    c.conformance(exe, "SignalsTrace", c.scale(9000, 60000),
                  cfg=trace_cfg(" Caught = {2, 4, 6, 7, 8, 11, 15, 31}\n MaxScripts = 6"))


@check("Y03")
def y03(c):
    for mods, steps in c.scale([(1, 3), (2, 2)], [(1, 4), (2, 3), (3, 2)]):
        c.model("ConsoleMC", "SPECIFICATION Spec\nCONSTANTS MaxMods = %d MaxOpen = 2 MaxSteps = %d\nINVARIANTS Conforms NoBleed Quiet\nCHECK_DEADLOCK FALSE\n"
                % (mods, steps), what="stylers by escape sequences")
    exe = vlib.build("console", "console.cpp", "asan")
    c.conformance(exe, "ConsoleTrace", c.scale(10000, 60000))
