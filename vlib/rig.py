"""Builds real controllers inside a World and gives the monitors their observation points."""
from . import env, hw as hwmod


class SwModel:
    """A footswitch as seen by the firmware: init() and .pushed"""
    def __init__(self, log=None, name=""):
        self.down = False
        self.inits = 0
        self.polls = 0
        self.name = name
        self.log = log

    def init(self):
        self.inits += 1

    @property
    def pushed(self):
        self.polls += 1
        if self.log is not None:
            self.log.append(("poll", self.name))
        return self.down


class PotModel:
    def __init__(self, value=0, log=None, name=""):
        self.v, self.inits, self.polls, self.log, self.name = value, 0, 0, log, name

    def init(self):
        self.inits += 1

    @property
    def value(self):
        self.polls += 1
        if self.log is not None:
            self.log.append(("poll", self.name))
        return self.v


class EncModel:
    def __init__(self, pos=0):
        self.p, self.inits, self.polls = pos, 0, 0

    def init(self):
        self.inits += 1

    @property
    def position(self):
        self.polls += 1
        return self.p


class LedDriver:
    """init(n) / .leds like the NeoPixel driver, validating and recording each write."""
    def __init__(self, world):
        self.world = world
        self.leds = None
        self.n = None

    def init(self, n):
        self.n = n
        self.leds = self.world.hw.mk_neopixel(None, n)


class DisplayDriver:
    def __init__(self, world, w=240, h=240):
        self.world, self.width, self.height = world, w, h
        self.shown = []
        self.tft = self

    def init(self):
        pass

    @property
    def root(self):
        return self.shown[-1][1] if self.shown else None

    def show(self, group):
        self.shown.append((self.world.clock.ms, group))


class FontLoader:
    def get(self, path):
        return hwmod.Font(path)


class Splash:
    """Minimal splash callback of a configuration: a single root element."""
    def __init__(self, root):
        self.root = root

    def init(self, appl, listener=None):
        pass

    def get_root(self):
        return self.root


def parse_stream(data):
    """Independent splitter of a raw byte stream into MIDI messages (running status is not used by the firmware)."""
    out, i, n = [], 0, len(data)
    while i < n:
        b = data[i]
        if b == 0xF0:
            j = i + 1
            while j < n and data[j] < 0x80:
                j += 1
            if j >= n or data[j] != 0xF7:
                raise ValueError("malformed SysEx written: " + bytes(data[i:j + 1]).hex())
            out.append(bytes(data[i:j + 1]))
            i = j + 1
            continue
        if b < 0x80:
            raise ValueError("data byte without status written: " + bytes(data[i:]).hex())
        if b >= 0xF0:
            ln = {0xF1: 2, 0xF2: 3, 0xF3: 2}.get(b, 1)
        else:
            ln = 2 if (b & 0xF0) in (0xC0, 0xD0) else 3
        m = bytes(data[i:i + ln])
        if len(m) != ln or any(x > 127 for x in m[1:]):
            raise ValueError("malformed message written: " + m.hex())
        out.append(m)
        i += ln
    return out


class Rig:
    """A running Controller with a byte MIDI port, LEDs, screen and inputs."""
    def __init__(self, world, inputs=(), config=None, protocol=None, labels=(), splash=None, ui=True,
                 in_channel=None, out_channel=0, init=True, in_buf_size=100, clear=True, routings=None):
        W = world
        self.world, self.clock = W, W.clock
        self.port = W.hw.usb_ports[1]
        self.inport = W.hw.usb_ports[0]
        midi_m = W.imp("pyswitch.controller.midi")
        self.MidiRouting = midi_m.MidiRouting
        if routings is None:
            USB = W.get("pyswitch.hardware.devices.pa_midicaptain:PA_MIDICAPTAIN_USB_MIDI")
            dev = USB(in_channel=in_channel, out_channel=out_channel, in_buf_size=in_buf_size)
            routings = [midi_m.MidiRouting(source=dev, target=midi_m.MidiRouting.APPLICATION),
                        midi_m.MidiRouting(source=midi_m.MidiRouting.APPLICATION, target=dev)]
            self.dev = dev
        self.midi = midi_m.MidiController(routings)
        self.led_driver = LedDriver(W)
        self.display = DisplayDriver(W)
        self.ui = None
        self.labels = list(labels)
        if ui:
            ui_m = W.imp("pyswitch.ui.ui")
            UiC = W.get("pyswitch.ui.UiController:UiController")
            if splash is None:
                root = ui_m.DisplayElement(bounds=ui_m.DisplayBounds(0, 0, 240, 240), children=list(labels))
                splash = W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(root)
            self.splash = splash
            self.ui = UiC(display_driver=self.display, font_loader=FontLoader(), splash_callback=splash)
        Controller = W.get("pyswitch.controller.controller:Controller")
        self._read = 0
        self.c = Controller(led_driver=self.led_driver, midi=self.midi, protocol=protocol,
                            config={} if config is None else config, inputs=list(inputs), ui=self.ui)
        if init:
            self.c.init()

    # ---- stimulation
    def tick(self, dt=0, n=1):
        for _ in range(n):
            self.clock.advance(dt)
            if self.c.tick() is not True:
                raise AssertionError("tick() did not return True")

    def run(self, ms, dt=20):
        t = 0
        while t < ms:
            d = min(dt, ms - t)
            self.tick(d)
            t += d

    def feed(self, data):
        self.inport.feed(data)

    def settle(self, maxn=200):
        for _ in range(maxn):
            self.tick(1)
            if not self.inport.inbuf:
                break
        self.tick(1)

    # ---- observation
    def sent(self):
        """Messages written since the last call: list of (ms, bytes)"""
        out = []
        new = self.port.out[self._read:]
        self._read = len(self.port.out)
        for ms, b in new:
            for m in parse_stream(b):
                out.append((ms, m))
        return out

    def sent_msgs(self):
        return [m for _, m in self.sent()]

    @property
    def leds(self):
        return list(self.led_driver.leds.v) if self.led_driver.leds is not None else []


def label(world, back=(50, 50, 50), text="", w=120, h=40, x=0, y=0, **layout):
    el = world.imp("pyswitch.ui.elements")
    ui = world.imp("pyswitch.ui.ui")
    lay = {"font": "/fonts/H20.pcf", "text": text}
    if back is not None:
        lay["backColor"] = back
    lay.update(layout)
    return el.DisplayLabel(layout=lay, bounds=ui.DisplayBounds(x, y, w, h))


def find_screen(group):
    """All (absolute x, y, element) leaf elements of a shown group, in drawing order."""
    out = []

    def rec(g, x, y):
        for e in g:
            if isinstance(e, hwmod.Group):
                rec(e, x + e.x, y + e.y)
            else:
                out.append((x, y, e))
    if group is not None:
        rec(group, 0, 0)
    return out


# ---------------------------------------------------------------- MIDI building (independent of the firmware)
def cc(c, v, ch=0):
    return bytes([0xB0 | ch, c, v])


def pc(v, ch=0):
    return bytes([0xC0 | ch, v])


def sysex(manu, data):
    return b"\xF0" + bytes(manu) + bytes(data) + b"\xF7"
