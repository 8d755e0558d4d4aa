"""Hardware adapters on recording stand-ins of the board's libraries."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "M06"
RULE = ("A case sets up switches, pots, encoders, LEDs, a display, fonts and 1-3 MIDI ports (USB and DIN, shipped and custom pins, buffer sizes, channels) and drives pin levels, "
        "readings, 10-60 outgoing messages of all kinds and an incoming byte stream in random chunks; non-trivial always; signature = adapters and MIDI traffic.")
CASES = {"quick": 3000, "thorough": 60000}
FLOORS = {"levels": 10000, "readings": 5000, "sent": 20000, "received": 10000, "filtered": 3000, "unknown": 1000, "chunks": 10000, "displays": 300, "fonts": 500, "leds": 300}
LEVEL_NOTE = ("Exploration: independent encoder/decoder for all message kinds on recording ports. The MIDI library of the board is the project's own emulator copy of it; system exclusive "
              "messages arrive in one piece (that library drops pieces of unfinished ones).")


def enc(kind, ch, a, b, data):
    return {"cc": lambda: bytes([0xB0 | ch, a, b]), "pc": lambda: bytes([0xC0 | ch, a]), "on": lambda: bytes([0x90 | ch, a, b]), "off": lambda: bytes([0x80 | ch, a, b]),
            "bend": lambda: bytes([0xE0 | ch, a, b]), "cp": lambda: bytes([0xD0 | ch, a]), "pk": lambda: bytes([0xA0 | ch, a, b]), "clock": lambda: b"\xF8", "start": lambda: b"\xFA",
            "stop": lambda: b"\xFC", "cont": lambda: b"\xFB", "sx": lambda: b"\xF0" + data + b"\xF7"}[kind]()


KINDS = ["cc", "cc", "pc", "on", "off", "bend", "cp", "pk", "clock", "start", "stop", "cont", "sx", "sx"]


def run_case(rng, rec, tier):
    W = env.World()
    W.hw.shared_pins = True
    hw = W.hw
    pins = list(hw.pins.values())
    M = {n: W.get("adafruit_midi." + p) for n, p in {
        "cc": "control_change:ControlChange", "pc": "program_change:ProgramChange", "on": "note_on:NoteOn", "off": "note_off:NoteOff", "bend": "pitch_bend:PitchBend",
        "cp": "channel_pressure:ChannelPressure", "pk": "polyphonic_key_pressure:PolyphonicKeyPressure", "clock": "timing_clock:TimingClock", "start": "start:Start", "stop": "stop:Stop",
        "cont": "midi_continue:Continue", "sx": "system_exclusive:SystemExclusive"}.items()}
    UE = W.get("adafruit_midi.midi_message:MIDIUnknownEvent")
    sig = []

    def new(kind, a, b, data):
        c = M[kind]
        if kind in ("clock", "start", "stop", "cont"):
            return c()
        if kind == "sx":
            return c(list(data[:3]), list(data[3:]))
        if kind == "bend":
            return c(a + b * 128)
        if kind in ("pc", "cp"):
            return c(a)
        return c(a, b)
    # ---------------------------------------------------------------- inputs
    A = "pyswitch.hardware.adafruit."
    rng.shuffle(pins)
    sws = []
    free = list(pins)
    for i in range(rng.choice([1, 2, 3])):
        p = free.pop()
        s = W.get(A + "AdafruitSwitch:AdafruitSwitch")(p)
        check(not s.pushed, "a switch which is not initialized reports to be pushed")
        eq(len([d for d in hw.digital if d.pin is p]), 0, "pins in use before initialization")
        sws.append((s, p))
    p1 = free.pop()
    pot = W.get(A + "AdafruitPotentiometer:AdafruitPotentiometer")(p1)
    p1.analog = 12345
    eq(pot.value, None, "value of a pot which is not initialized")
    div = rng.choice([None, 1, 2, 4])
    pa, pb = free.pop(), free.pop()
    Enc = W.get(A + "AdafruitEncoder:AdafruitEncoder")
    enc_ = Enc(pa, pb) if div is None else Enc(pa, pb, divisor=div)
    eq(enc_.position, None, "position of an encoder which is not initialized")
    for x in rng.sample([s for s, _ in sws] + [pot, enc_], len(sws) + 2):
        x.init()
    eq(sorted(d.pin.name for d in hw.digital), sorted(p.name for _, p in sws), "digital pins in use")
    eq([d.pin.name for d in hw.analog], [p1.name], "analog pins in use")
    eq([(e.a.name, e.b.name, e.divisor) for e in hw.encoders], [(pa.name, pb.name, 2 if div is None else div)], "encoders in use")
    for d in hw.digital:
        eq((d.direction, d.pull), ("in", "up"), "setup of switch pin " + d.pin.name)
    for _ in range(20):
        for s, p in sws:
            if rng.random() < 0.5:
                p.level = rng.random() < 0.5
        for s, p in sws:
            got = s.pushed
            check(isinstance(got, bool) and got == (not p.level), lambda: "switch on %s at level %s reports pushed = %r" % (p.name, p.level, got))
            rec.n("levels")
        p1.analog = rng.choice([0, 65535, rng.randrange(65536)])
        eq(pot.value, p1.analog, "reading of the pot")
        hw.encoders[0].position += rng.choice([-100, -1, 0, 1, 3])
        eq(enc_.position, hw.encoders[0].position, "position of the encoder")
        rec.n("readings", 2)
    # ---------------------------------------------------------------- LEDs, display, fonts
    hwm = W.imp("pyswitch.hardware.adafruit")
    if rng.random() < 0.4:
        port = rng.choice([None] + pins)
        n = rng.choice([1, 3, 30, rng.randrange(1, 60)])
        d = hwm.AdafruitNeoPixelDriver() if port is None else hwm.AdafruitNeoPixelDriver(port)
        eq(d.leds, None, "LEDs before initialization")
        d.init(n)
        eq([(x.pin.name, x.n) for x in hw.neopixels], [("GP7" if port is None else port.name, n)], "LED strips in use")
        check(d.leds is hw.neopixels[0], "the driver does not give access to its LEDs")
        sig.append(("leds", n))
        rec.n("leds")
    if rng.random() < 0.4:
        kw = {}
        cs, dc, mo, ck = rng.sample(pins, 4)
        for k, v in {"width": rng.choice([240, 128]), "height": rng.choice([240, 160]), "tft_cs": cs, "tft_dc": dc, "spi_mosi": mo, "spi_clk": ck, "row_start": rng.choice([0, 80]),
                     "rotation": rng.choice([0, 90, 180]), "baudrate": rng.choice([1000000, 24000000])}.items():
            if rng.random() < 0.5:
                kw[k] = v
        d = hwm.AdafruitST7789DisplayDriver(**kw)
        full = dict(width=240, height=240, tft_cs=hw.pins["GP13"], tft_dc=hw.pins["GP12"], spi_mosi=hw.pins["GP15"], spi_clk=hw.pins["GP14"], row_start=80, rotation=180, baudrate=24000000)
        full.update(kw)
        eq((d.width, d.height), (full["width"], full["height"]), "display size")
        eq(hw.displays, [], "displays before initialization")
        del hw.calls[:]
        d.init()
        names = [c[1] for c in hw.calls if c[1] in ("release_displays", "display")]
        eq(names, ["release_displays", "display"], "display setup order")
        spi = hw.spi[-1]
        eq((len(hw.spi), spi.clock, spi.MOSI, spi.baudrate, spi.locks), (1, full["spi_clk"], full["spi_mosi"], full["baudrate"], 0), "SPI bus setup")
        t = hw.displays[-1]
        eq((t.bus.spi, t.bus.command, t.bus.chip_select, t.width, t.height, t.rowstart, t.rotation),
           (spi, full["tft_dc"], full["tft_cs"], full["width"], full["height"], full["row_start"], full["rotation"]), "display setup")
        check(d.tft is t, "the driver does not give access to its display")
        sig.append(("display", tuple(sorted(kw))))
        rec.n("displays")
    loaders = [hwm.AdafruitFontLoader() for _ in range(rng.choice([1, 2]))]
    fonts = {}
    for _ in range(6):
        path = "/fonts/%s.pcf" % rng.choice(["H20", "A12", "PTSans-NarrowBold-40"])
        f = rng.choice(loaders).get(path)
        eq(getattr(f, "path", None), path, "font loaded")
        check(fonts.setdefault(path, f) is f, "font %s exists more than once" % path)
        rec.n("fonts")
    eq(sorted(hw.fonts_loaded), sorted(fonts), "fonts loaded (each once)")
    # ---------------------------------------------------------------- MIDI
    devs = []
    for i in range(rng.choice([1, 2, 3])):
        ci = rng.choice([None, None, rng.randrange(16), rng.randrange(16), tuple(rng.sample(range(16), rng.choice([1, 3])))])
        co = rng.choice([None, 0, rng.randrange(16)])
        size = rng.choice([None, 40, 64, 200])
        kw = {k: v for k, v in (("in_channel", ci), ("out_channel", co), ("in_buf_size", size)) if v is not None}
        kind = rng.choice(["usb", "din", "usb2", "din2"])
        if kind == "usb" and any(x[0] == "usb" for x in devs):
            kind = "din"
        if kind == "usb":
            d = W.get("pyswitch.hardware.devices.pa_midicaptain:PA_MIDICAPTAIN_USB_MIDI")(**kw)
            pin_, pout = hw.usb_ports
        elif kind == "usb2":
            from vlib.hw import BytePort
            pin_, pout = BytePort(hw, "usb"), BytePort(hw, "usb")
            kw.setdefault("in_buf_size", 100)
            d = W.get(A + "AdafruitUsbMidiDevice:AdafruitUsbMidiDevice")(port_in=pin_, port_out=pout, **kw)
        elif kind == "din":
            d = W.get("pyswitch.hardware.devices.pa_midicaptain:PA_MIDICAPTAIN_DIN_MIDI")(**kw)
            pin_ = pout = hw.uarts[-1]
            eq((pin_.tx.name, pin_.rx.name, pin_.baudrate, pin_.timeout), ("GP16", "GP17", 31250, 0.001), "setup of the DIN port")
        else:
            kw.setdefault("in_buf_size", 100)
            n = rng.choice([0, 4, 8, 12, 16, 20, 24, 28])
            ga, gb = hw.pins["GP%d" % n], hw.pins["GP%d" % (n + 1)]
            br, to = rng.choice([31250, 9600]), rng.choice([0.001, 1])
            d = W.get(A + "AdafruitDinMidiDevice:AdafruitDinMidiDevice")(gpio_in=ga, gpio_out=gb, baudrate=br, timeout=to, **kw)
            pin_ = pout = hw.uarts[-1]
            eq((pin_.tx, pin_.rx, pin_.baudrate, pin_.timeout), (ga, gb, br, to), "setup of the DIN port")
        devs.append((kind, d, pin_, pout, ci, 0 if co is None else co, kw.get("in_buf_size", 100)))
    want_out = {id(x[3]): [] for x in devs}
    for _ in range(rng.choice([10, 60])):
        kind = rng.choice(KINDS)
        a, b = rng.randrange(128), rng.randrange(128)
        data = bytes(rng.choice([[0, 0x20, 0x33], [0x7d, 1, 2], [0, 0x7f, 0x7f]]) + [rng.randrange(128) for _ in range(rng.choice([0, 1, 8, 60]))])
        if data[0]:
            data = bytes([0x00]) + data[1:]
        if rng.random() < 0.1:
            m, raw = UE(0xF4), None
            rec.n("unknown")
        else:
            m = new(kind, a, b, data)
            raw = lambda ch: enc(kind, ch, a, b, data)
        for x in (devs if rng.random() < 0.2 else [rng.choice(devs)]):
            x[1].send(m)
            if raw is not None:
                want_out[id(x[3])].append(raw(x[5]))
                rec.n("sent")
    for x in devs:
        got = [b for _, b in x[3].out]
        want = want_out[id(x[3])]
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            raise Violation("%s port (output channel %d) wrote %s, expected %s (message %d)" % (
                x[0], x[5], got[i].hex() if i < len(got) else None, want[i].hex() if i < len(want) else None, i))
    # incoming
    plan = {}
    for x in devs:
        chans = list(range(16)) if x[4] is None else [x[4]] if isinstance(x[4], int) else list(x[4])
        chunks, want = [], []
        cur = b""
        for _ in range(rng.choice([3, 10, 30])):
            kind = rng.choice(KINDS)
            a, b, ch = rng.randrange(128), rng.randrange(128), rng.randrange(16)
            if rng.random() < 0.4:
                ch = rng.choice(chans)
            data = bytes([0, 0x20, 0x33] + [rng.randrange(128) for _ in range(rng.choice([0, 1, 8, 15]))])
            raw = enc(kind, ch, a, b, data)
            if kind == "on" and b == 0:
                continue
            if raw[0] >= 0xF0 or ch in chans:
                want.append((kind, raw))
            else:
                rec.n("filtered")
            if kind == "sx":
                chunks += [cur, raw]
                cur = b""
            else:
                k = rng.randrange(len(raw) + 1)
                if rng.random() < 0.5:
                    chunks.append(cur + raw[:k])
                    cur = raw[k:]
                else:
                    cur += raw
                if len(cur) > 10:
                    chunks.append(cur)
                    cur = b""
        chunks.append(cur)
        plan[id(x[1])] = (x, [c for c in chunks if c], want, [])
    todo = list(plan.values())
    while todo:
        e = rng.choice(todo)
        x, chunks, want, got = e
        if not chunks:
            todo.remove(e)
            for _ in range(60):
                m = x[1].receive()
                if m is not None:
                    got.append(m)
            continue
        x[2].feed(chunks.pop(0))
        rec.n("chunks")
        for _ in range(3 * 16):
            m = x[1].receive()
            if m is not None:
                got.append(m)
            elif not x[2].inbuf and rng.random() < 0.5:
                break
    for x, _, want, got in plan.values():
        res = []
        for m in got:
            if isinstance(m, UE):
                res.append(("unknown", bytes([m.status])))
                continue
            k = next(k for k, c in M.items() if type(m) is c)
            res.append((k, bytes(m.__bytes__())))
        if res != want:
            i = next((i for i in range(min(len(res), len(want))) if res[i] != want[i]), min(len(res), len(want)))
            raise Violation("%s port (input channel %r): received %r, expected %r (message %d)" % (x[0], x[4], res[i] if i < len(res) else None, want[i] if i < len(want) else None, i))
        check(x[2].maxread <= x[6], lambda: "%s port reads %d bytes at once, its buffer size is %d" % (x[0], x[2].maxread, x[6]))
        rec.n("received", len(want))
        sig.append((x[0], x[4], x[5], [w[1] for w in want]))
    rec.sig(sig)
