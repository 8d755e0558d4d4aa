"""Recording stand-ins for the CircuitPython modules (the hardware boundary)."""
import sys, types

MODULE_ROOTS = ("adafruit_bitmap_font", "adafruit_display_shapes", "adafruit_display_text", "adafruit_hid", "adafruit_misc",
                "analogio", "board", "busio", "digitalio", "displayio", "fourwire", "micropython", "rotaryio", "storage",
                "supervisor", "usb_hid", "usb_midi", "pymidibridge", "microcontroller", "neopixel")


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, child = name.rpartition(".")
    if parent:
        setattr(sys.modules[parent], child, m)
    return m


class Pin:
    def __init__(self, name):
        self.name = name
        self.level = True        # pulled up
        self.analog = 0
        self.owner = None

    def claim(self, who):
        if self.owner is not None and not self.hw.shared_pins:
            raise ValueError(self.name + " in use")
        self.owner = who

    def __repr__(self):
        return "board." + self.name


class BytePort:
    """A byte-wise MIDI port (USB or UART). What the firmware reads / writes."""
    def __init__(self, hw, name):
        self.hw, self.name = hw, name
        self.inbuf = bytearray()
        self.reads = 0
        self.out = []              # (ms, bytes)
        self.on_write = None
        self.max_chunk = None
        self.before_read = None
        self.maxread = 0

    def feed(self, data):
        self.inbuf.extend(data)

    def read(self, n=None):
        self.reads += 1
        self.maxread = max(self.maxread, n if n is not None else 1 << 30)
        if self.before_read:
            self.before_read(self)
        if not self.inbuf:
            return b"" if self.name == "usb" else None
        if n is None:
            n = len(self.inbuf)
        if self.max_chunk:
            n = min(n, self.max_chunk)
        r = bytes(self.inbuf[:n])
        del self.inbuf[:n]
        return r

    def readinto(self, buf, n=None):
        r = self.read(len(buf) if n is None else n) or b""
        buf[:len(r)] = r
        return len(r)

    def write(self, buf, n=None):
        b = bytes(buf) if n is None else bytes(buf[:n])
        self.out.append((self.hw.world.clock.ms, b))
        if self.on_write:
            self.on_write(self, b)
        return len(b)


class Group(list):
    def __init__(self, *, scale=1, x=0, y=0, max_size=None):
        super().__init__()
        self.scale, self.x, self.y, self.hidden = scale, x, y, False

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)


class Rect:
    def __init__(self, x, y, width, height, *, fill=None, outline=None, stroke=1):
        if width <= 0 or height <= 0:
            raise ValueError("Rectangle dimensions must be larger than 0.")
        self.x, self.y, self.width, self.height = x, y, width, height
        self.fills = []
        self.fill = fill

    @property
    def fill(self):
        return self._fill

    @fill.setter
    def fill(self, c):
        _check_palette(c)
        self._fill = c
        self.fills.append(c)


class Font:
    def __init__(self, path):
        self.path = path
        self.cw = 10

    def width(self, s):
        return self.cw * len(s)


class Label:
    def __init__(self, font, *, text="", color=0xFFFFFF, line_spacing=1.25, scale=1, anchor_point=None,
                 anchored_position=None, **kw):
        if text is not None and not isinstance(text, str):
            raise TypeError("text must be str")
        self.font, self.line_spacing, self.scale = font, line_spacing, scale
        self.anchor_point, self.anchored_position = anchor_point, anchored_position
        _check_palette(color)
        self._text, self._color = text, color
        self.texts, self.colors = [text], [color]
        self.extra = kw

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, t):
        if not isinstance(t, str):
            raise TypeError("text must be str")
        self._text = t
        self.texts.append(t)

    @property
    def color(self):
        return self._color

    @color.setter
    def color(self, c):
        _check_palette(c)
        self._color = c
        self.colors.append(c)


def wrap_text_to_pixels(string, max_width, font=None, indent0="", indent1=""):
    """Word wrap with the same contract as the device library (greedy, splits long words)."""
    cw = font.cw if font else 10
    n = max(1, int(max_width // cw))
    lines = []
    for para in string.split("\n"):
        line = ""
        for word in para.split(" "):
            while len(word) > n:
                if line:
                    lines.append(line)
                    line = ""
                lines.append(word[:n])
                word = word[n:]
            if not line:
                line = word
            elif len(line) + 1 + len(word) <= n:
                line += " " + word
            else:
                lines.append(line)
                line = word
        lines.append(line)
    return lines


class NeoPixel:
    def __init__(self, hw, pin, n):
        self.hw, self.pin, self.n = hw, pin, n
        self.v = [(0, 0, 0)] * n
        self.writes = 0

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.v[i]

    def __setitem__(self, i, c):
        _check_color(c)
        self.v[i] = tuple(c)
        self.writes += 1

    def fill(self, c):
        for i in range(self.n):
            self[i] = c

    def __iter__(self):
        return iter(list(self.v))


def _check_palette(c):
    """Colors of screen elements: transparent, 24 bit integers or (R, G, B)"""
    if c is None or isinstance(c, int) and 0 <= c <= 0xFFFFFF:
        return
    if isinstance(c, (tuple, list)) and len(c) == 3 and all(isinstance(x, int) and 0 <= x <= 255 for x in c):
        return
    raise ValueError("color of a screen element must be an integer or (R, G, B): " + repr(c))


def _check_color(c):
    if not isinstance(c, (tuple, list)) or len(c) != 3:
        raise ValueError("Color must be an (R,G,B) tuple: " + repr(c))
    for x in c:
        if not isinstance(x, int) or x < 0 or x > 255:
            raise ValueError("Color component out of range: " + repr(c))


class HW:
    pass


class PortIn(BytePort):
    write = property()


class PortOut(BytePort):
    read = readinto = property()


def install(world):
    hw = HW()
    hw.world = world
    hw.pins = {}
    hw.shared_pins = False      # a pin can only be used once (as on the board)
    hw.neopixels = []
    hw.displays = []
    hw.spi = []
    hw.shown = []                # (ms, group)
    hw.uarts = []
    hw.usb_ports = [PortIn(hw, "usb"), PortOut(hw, "usb")]
    hw.keys_log, hw.keys_down, hw.kbd_fault = [], set(), False     # log: (ms, "down"/"up", keycode) as the host sees it
    hw.keyboards = []
    hw.calls = []                # boot.py etc
    hw.digital, hw.analog, hw.encoders = [], [], []
    hw.fonts_loaded = []
    hw.bridges = []

    # micropython
    _mod("micropython", const=lambda x: x)

    # board
    board = _mod("board")
    for i in range(0, 30):
        p = Pin("GP%d" % i)
        p.hw = hw
        hw.pins["GP%d" % i] = p
        setattr(board, "GP%d" % i, p)
    hw.board = board

    # digitalio
    class Direction:
        INPUT, OUTPUT = "in", "out"

    class Pull:
        UP, DOWN = "up", "down"

    class DigitalInOut:
        def __init__(self, pin):
            pin.claim(self)
            self.pin = pin
            self.direction = Direction.INPUT
            self.pull = None
            hw.digital.append(self)
            hw.calls.append((world.clock.ms, "digital", pin))

        def switch_to_input(self, pull=None):
            self.direction, self.pull = Direction.INPUT, pull

        def deinit(self):
            if self.pin.owner is self:
                self.pin.owner = None
            hw.calls.append((world.clock.ms, "deinit", self.pin))

        @property
        def value(self):
            hw.calls.append((world.clock.ms, "read", self.pin)) if len(hw.calls) < 2000 else None
            if self.pull != Pull.UP:
                return False                    # floating / pulled down input
            return self.pin.level
    _mod("digitalio", DigitalInOut=DigitalInOut, Direction=Direction, Pull=Pull)

    class AnalogIn:
        def __init__(self, pin):
            pin.claim(self)
            self.pin = pin
            hw.analog.append(self)

        @property
        def value(self):
            return self.pin.analog
    _mod("analogio", AnalogIn=AnalogIn)

    class IncrementalEncoder:
        def __init__(self, a, b, divisor=4):
            a.claim(self)
            b.claim(self)
            self.a, self.b, self.divisor = a, b, divisor
            self.position = 0
            hw.encoders.append(self)
    _mod("rotaryio", IncrementalEncoder=IncrementalEncoder)

    # busio
    class UART(BytePort):
        def __init__(self, tx, rx, *, baudrate=9600, timeout=1, **kw):
            BytePort.__init__(self, hw, "din")
            if tx.name not in ("GP0", "GP12", "GP16", "GP28", "GP4", "GP8", "GP20", "GP24") or rx.name not in ("GP1", "GP13", "GP17", "GP29", "GP5", "GP9", "GP21", "GP25"):
                raise ValueError("Invalid pins")
            tx.claim(self)
            rx.claim(self)
            self.tx, self.rx, self.baudrate, self.timeout = tx, rx, baudrate, timeout
            hw.uarts.append(self)

    class SPI:
        def __init__(self, clock, MOSI=None, MISO=None):
            clock.claim(self)
            if MOSI:
                MOSI.claim(self)
            self.clock, self.MOSI = clock, MOSI
            self.locks = 0
            self.tries = 0
            hw.spi.append(self)

        def try_lock(self):
            self.tries += 1
            if self.tries < 2:
                return False
            self.locks += 1
            return True

        def unlock(self):
            self.locks -= 1

        def configure(self, *, baudrate=100000):
            if self.locks != 1:
                raise RuntimeError("Function requires lock")
            self.baudrate = baudrate
    _mod("busio", UART=UART, SPI=SPI)

    # displayio
    def release_displays():
        hw.calls.append((world.clock.ms, "release_displays", None))

    class FourWire:
        def __init__(self, spi, *, command, chip_select, reset=None, **kw):
            command.claim(self)
            chip_select.claim(self)
            self.spi, self.command, self.chip_select, self.reset = spi, command, chip_select, reset
    _mod("displayio", Group=Group, release_displays=release_displays, FourWire=FourWire)
    _mod("fourwire", FourWire=FourWire)

    class ST7789:
        def __init__(self, bus, *, width, height, rowstart=0, rotation=0, **kw):
            self.bus, self.width, self.height, self.rowstart, self.rotation = bus, width, height, rowstart, rotation
            self.root_group = None
            hw.displays.append(self)
            hw.calls.append((world.clock.ms, "display", self))

        def show(self, group):
            self.root_group = group
            hw.shown.append((world.clock.ms, group))
    _mod("adafruit_misc")
    _mod("adafruit_misc.adafruit_st7789", ST7789=ST7789)

    def mk_neopixel(pin, n, **kw):
        if pin is not None:
            pin.claim("neopixel")
        px = NeoPixel(hw, pin, n)
        hw.neopixels.append(px)
        return px
    _mod("adafruit_misc.neopixel", NeoPixel=mk_neopixel)
    hw.mk_neopixel = mk_neopixel

    # fonts / display text / shapes
    def load_font(path):
        hw.fonts_loaded.append(path)
        return Font(path)
    _mod("adafruit_bitmap_font")
    _mod("adafruit_bitmap_font.bitmap_font", load_font=load_font)
    _mod("adafruit_display_text", wrap_text_to_pixels=wrap_text_to_pixels)
    _mod("adafruit_display_text.label", Label=Label)
    _mod("adafruit_display_shapes")
    _mod("adafruit_display_shapes.rect", Rect=Rect)

    # usb midi: ports[0] in, ports[1] out
    _mod("usb_midi", ports=tuple(hw.usb_ports))
    _mod("usb_hid", devices=("usb-hid-devices",))

    class Keyboard:
        """Like adafruit_hid: six keys at once at most (modifiers apart), the constructor sends an empty report and
        raises OSError while no host is connected. hw.keys_log has what the host sees: keys going down and up."""
        def __init__(self, devices):
            if not devices:
                raise ValueError("Could not find matching HID device.")
            self.down = set()
            hw.keyboards.append(self)
            self._report()

        def _report(self):
            if hw.kbd_fault:
                raise OSError("USB busy")
            for k in sorted(hw.keys_down - self.down):
                hw.keys_log.append((world.clock.ms, "up", k))
            for k in sorted(self.down - hw.keys_down):
                hw.keys_log.append((world.clock.ms, "down", k))
            hw.keys_down = set(self.down)

        def press(self, *codes):
            for c in codes:
                if not isinstance(c, int) or not 0 <= c <= 255:
                    raise TypeError("keycode must be int")
                if c < 0xE0 and len([k for k in self.down | {c} if k < 0xE0]) > 6:
                    raise ValueError("Trying to press more than six keys at once.")
                self.down.add(c)
            self._report()

        def release(self, *codes):
            self.down -= set(codes)
            self._report()

        def release_all(self):
            self.down = set()
            self._report()

        def send(self, *codes):
            self.press(*codes)
            self.release_all()
    _mod("adafruit_hid")
    _mod("adafruit_hid.keyboard", Keyboard=Keyboard)
    from . import env
    import os
    kc = {}
    src = os.path.join(env.STUBS, "keycode.py")
    exec(env._compile(src), kc)
    _mod("adafruit_hid.keycode", Keycode=kc["Keycode"])

    # boot
    _mod("storage", disable_usb_drive=lambda: hw.calls.append((world.clock.ms, "disable_usb_drive", None)),
         enable_usb_drive=lambda: hw.calls.append((world.clock.ms, "enable_usb_drive", None)),
         remount=lambda path, readonly=False, **kw: hw.calls.append((world.clock.ms, "remount", (path, readonly))))
    _mod("supervisor", disable_autoreload=lambda: hw.calls.append((world.clock.ms, "disable_autoreload", None)),
         reload=lambda: hw.calls.append((world.clock.ms, "reload", None)))

    # file transfer bridge: transparent wrapper
    class MidiBridgeWrapper:
        def __init__(self, midi, temp_file_path, **kw):
            self.midi, self.temp_file_path, self.kw = midi, temp_file_path, kw
            self.errors = []
            self.receives, self.sends = 0, 0
            hw.bridges.append(self)

        def receive(self):
            self.receives += 1
            return self.midi.receive()

        def send(self, m):
            self.sends += 1
            self.midi.send(m)

        def error(self, exc):
            self.errors.append(exc)
    _mod("pymidibridge")
    _mod("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=MidiBridgeWrapper)
    return hw
