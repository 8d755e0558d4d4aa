"""What is shown depends only on the page and the device's state: differential monitor against a controller which went another way."""
import random
from vlib import env, rig, sink, kdev
from vlib.runner import Violation, check, eq
from props import K02
from props.K02 import run_ms, same

ID = "K15"
RULE = ("A case is a random configuration of Kemper actions on the pages of a pager (rotating or direct, with buttons for single pages), the actions of different pages sharing switches, LEDs and "
        "labels, a simulated device with or without bidirectional protocol, and a random history of page changes, device changes and presses. What LEDs and labels show on the page reached, and what the switches send, must "
        "equal a controller freshly started with the device in that state, which went to the page directly. Signature = configuration and history.")
KINDS = [k for k in K02.KINDS if k != "tuner"]       # its state cannot be requested
CASES = {"quick": 4000, "thorough": 20000}
FLOORS = {"page_changes": 3000, "device_changes": 2300, "presses": 2000, "labels_compared": 1300, "leds_compared": 3300, "shared_labels": 1000, "commands": 1000, "offline": 400}
LEVEL_NOTE = ("Exploration: differential oracle - a fresh instance of the real controller predicts what must be shown. Compared are the labels and LEDs which an action enabled on the page uses. "
              "Device behaviour is a simulation written from the protocol description.")


class Paged(sink.Sink):
    def __init__(self, W, rng, cfg):
        self.W, self.rng, self.internal, self.desc, self.kinds = W, rng, False, [], KINDS
        self.encbuttons, self.share, self.free, self.named = [], False, None, []
        r = rng
        if r.random() < 0.3:
            self.kinds = r.sample(KINDS, 3)
        km = W.imp("pyswitch.clients.kemper")
        el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
        nsw = r.choice([1, 2, 3, 5])
        self.labels = [rig.label(W, back=r.choice([(50, 50, 50), (0, 0, 0)]), w=80, h=40, x=80 * (i % 3), y=40 * (i // 3)) for i in range(nsw)]
        root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=list(self.labels))
        P = W.get(sink.LA + "pager:PagerAction")
        self.pages = [{"id": k, "color": r.choice(sink.COL), "text": "Pg%d" % k} for k in range(1, r.choice([2, 2, 3]) + 1)]
        direct = r.random() < 0.3
        self.pager = P(pages=self.pages, select_page=self.pages[0]["id"] if direct else None, use_leds=True)
        self.direct = direct
        self.proxies = [self.pager.proxy(p["id"]) for p in self.pages if direct or r.random() < 0.2]
        self.pagers = [self.pager] + self.proxies
        self.switches, inputs, led = [], [], 0
        for a in self.pagers:
            m = rig.SwModel()
            self.switches.append(m)
            inputs.append({"assignment": {"model": m, "pixels": (led,)}, "actions": [a]})
            led += 1
        self.info = []          # (action, page, label, pixels, switch)
        for i in range(nsw):
            m = rig.SwModel()
            self.switches.append(m)
            n = r.choice([1, 3, 4])
            pix = tuple(range(led, led + n))
            led += n
            acts = []
            for pg in self.pages:
                for k in range(r.choice([0, 1, 1, 2])):
                    self.com = {"display": self.labels[i] if k == 0 and r.random() < 0.9 else None, "use_leds": r.random() < 0.85, "id": pg["id"], "enable_callback": self.pager.enable_callback}
                    a = self.action()
                    acts.append(a)
                    self.info.append((a, pg["id"], self.com["display"], pix if a.uses_switch_leds else (), i))
            r.shuffle(acts)
            inputs.append({"assignment": {"model": m, "pixels": pix}, "actions": acts})
        self.protocol = km.KemperBidirectionalProtocol(30, tuner_mode=False) if r.random() < 0.7 else None
        self.R = rig.Rig(W, inputs=inputs, splash=W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(root), config=cfg, protocol=self.protocol)

    def action(self, kind=None):
        k = kind or self.rng.choice(self.kinds)
        if k == "text":         # colours which are not given remain as they are
            self.desc.append(k)
            c = self.common(False)
            return self.W.get(sink.LA + "fixed_text:DISPLAY_FIXED_TEXT")(text="Fix", back_color=self.rng.choice(sink.COL), **c)
        if k == "binary":       # values for on and off which the comparison tells apart
            self.desc.append(k)
            m = self.rng.choice(["rig:MAPPING_RIG_VOLUME", "amp:MAPPING_AMP_STATE", "cabinet:MAPPING_CABINET_STATE", "system:MAPPING_MAIN_VOLUME"])
            mode = self.rng.choice([0, 10, 20, 30, 40, 50])
            return self.W.get(sink.LA + "binary_switch:BINARY_SWITCH")(mapping=self.mapping(m), mode=mode, text="Bin", color=self.rng.choice(sink.COL), value_on=self.rng.choice([1, 100]), value_off=0,
                                                                      comparison_mode=self.rng.choice([0, 20]), **self.common())
        return sink.Sink.action(self, k)

    def common(self, leds=True):
        return {k: v for k, v in self.com.items() if k != "use_leds" or leds}

    def view(self):
        page = self.pager.current_page_id
        v = {}
        for k, (a, pg, lab, pix, _) in enumerate(self.info):
            if pg != page:
                continue
            if lab is not None:
                i = self.labels.index(lab)
                v["label %d" % i] = (lab.text, lab.back_color, lab.text_color)
            for p in pix:
                v["led %d" % p] = self.R.leds[p]
        return v


def start(seed, dseed, rigno):
    W = env.World()
    r = random.Random(seed)
    S = Paged(W, r, {"updateInterval": r.choice([50, 100, 200])})
    dev = kdev.Device(W, dseed, S.R.inport, S.R.port, rig=rigno)
    return W, S, dev


def press(S, dev, i, dt, hold=None):
    S.switches[i].down = True
    run_ms(S, dev, hold or dt, dt)
    S.switches[i].down = False
    run_ms(S, dev, dt, dt)


def commands(S, dev, dt):
    """What the switches send when pressed one after another (requests and protocol messages aside)"""
    out = []
    for i in range(len(S.pagers), len(S.switches)):
        n = len(S.R.port.out)
        press(S, dev, i, dt, 200)
        run_ms(S, dev, 1000, dt)
        out.append([m.hex() if m[:1] != b"\xb0" or m[1] not in (75, 76, 77, 78) else m[:2].hex()      # the state of effect buttons is their own
                    for _, b in S.R.port.out[n:] for m in rig.parse_stream(b) if not (m[0] == 0xF0 and (m[6] in (0x41, 0x42, 0x43, 0x47, 0x7c, 0x7e) or m[8:10] == b"\4\1"))])     # rig volume boosts restore the value seen before
    return out


def pairs(S, rec):
    """A release of a rig select command follows a push of the same command"""
    down = {}
    for _, b in S.R.port.out:
        for m in rig.parse_stream(b):
            if m[0] == 0xB0 and 50 <= m[1] <= 54:
                down[m[1]] = down.get(m[1], 0) + (1 if m[2] else -1)
                check(down[m[1]] >= 0, lambda: "rig select CC %d: release sent without a push; actions %r" % (m[1], S.desc))
                rec.n("rig_select_messages")


def run_case(rng, rec, tier):
    seed, dseed, rigno = rng.random(), rng.random(), rng.randrange(625)
    dt = rng.choice([10, 20, 40])
    W, S, dev = start(seed, dseed, rigno)
    if rng.random() < 0.4:
        dev.latency = lambda: rng.choice([0, 1, 5, 30])
    run_ms(S, dev, 1500, dt)
    npag, hist = len(S.pagers), []
    for _ in range(rng.choice([3, 8, 20])):
        x = rng.random()
        if x < 0.4:
            i = rng.randrange(npag)
            press(S, dev, i, dt)
            hist.append(("page", i))
            rec.n("page_changes")
        elif x < 0.7 or len(S.switches) == npag:
            k = rng.randrange(7)
            if k <= 1:
                dev.load(rng.choice([rng.randrange(625), dev.rig]))
            elif k == 2:
                dev.set((rng.choice(kdev.SLOTS), 0), rng.choice(kdev.TYPES))
            elif k == 3:
                dev.set((4, 1), rng.randrange(16384))
            elif k == 4:
                dev.set((5, rng.choice([1, 6, 11, 16, 21, 26, 36, 41])), rng.choice([0, 1]))
            elif k == 5:
                dev.set((rng.choice([0x0a, 0x0c]), 2), rng.choice([0, 1]))
            else:
                dev.set((rng.choice(kdev.SLOTS), 3), rng.choice([0, 1]))
            hist.append(("device", k, dev.rig))
            rec.n("device_changes")
        else:
            i = rng.randrange(npag, len(S.switches))
            press(S, dev, i, dt, rng.choice([dt, 100, 700]))
            hist.append(("press", i - npag))
            rec.n("presses")
            run_ms(S, dev, 600, dt)         # until the device has been asked for the result, see run_fixed
        if rng.random() < 0.06:
            run_ms(S, dev, 200, dt)         # what is on its way arrives
            dev.link = False
            ms = rng.choice([1000, 8000])
            run_ms(S, dev, ms, dt)
            for _ in range(rng.randrange(4) if ms > 1000 else 0):       # presses before the loss is noticed are not taken back, see run_fixed
                i = rng.randrange(len(S.switches))
                press(S, dev, i, dt)
                hist.append(("press offline", i - npag))
            dev.link = True
            run_ms(S, dev, 7000, dt)
            hist.append(("offline",))
            rec.n("offline")
        if rng.random() < 0.6:
            run_ms(S, dev, rng.choice([dt, 100, 400]), dt)
    if rng.random() < 0.5 and S.pages:
        i = rng.randrange(npag)
        press(S, dev, i, dt)
        hist.append(("page", i))
    # without the protocol, changes on the device are seen at the next change of rig
    dev.load((dev.rig + 3) % 625)
    if rng.random() < 0.5:
        run_ms(S, dev, rng.choice([dt, 300, 1500]), dt)
        i = rng.randrange(npag)
        press(S, dev, i, dt)
        hist.append(("load, page", i))
    run_ms(S, dev, 3000, dt)
    got, page, desc = S.view(), S.pager.current_page_id, S.desc
    state = (dict(dev.num), dict(dev.str), dev.rig, {k: dict(v) for k, v in dev.edits.items()})
    sent = commands(S, dev, dt)
    pairs(S, rec)
    W, S, dev = start(seed, dseed, state[2])
    dev.num, dev.str, dev.edits = dict(state[0]), dict(state[1]), state[3]
    run_ms(S, dev, 1000, dt)
    for _ in range(200):
        if S.pager.current_page_id == page:
            break
        press(S, dev, 0 if not S.direct else rng.randrange(npag), dt)
    else:
        raise Violation("page %r cannot be reached" % page)
    run_ms(S, dev, 3000, dt)
    want = S.view()
    for k in want:
        rec.n("labels_compared" if k[1] == "a" else "leds_compared")
        ok = got[k] == want[k] if k[1] == "a" else same("leds", [got[k]], [want[k]])
        check(ok, lambda: "page %r, %s shows %r, coming another way %r; actions %r, history %r" % (page, k, got[k], want[k],
              [(d, p, S.labels.index(l) if l is not None else None) for d, (_, p, l, _, _) in zip(desc, S.info)], hist))
    for i, (a, b) in enumerate(zip(sent, commands(S, dev, dt))):
        if sum(1 for x in S.info if x[1] == page and x[4] == i) > 1:
            continue        # actions of the same switch can influence each other while it is pressed
        rec.n("commands", len(b))
        check(a == b, lambda: "page %r: switch %d sends %r when pressed, coming another way %r; actions %r, history %r" % (page, i, a, b,
              [(d, p, S.labels.index(l) if l is not None else None) for d, (_, p, l, _, _) in zip(desc, S.info)], hist))
    rec.n("shared_labels", sum(1 for l in S.labels if sum(1 for x in S.info if x[2] is l) > 1))
    rec.sig((tuple(desc), repr(hist)))
    rec.state(repr(got))


def FIXED(tier):
    return [(protocol, mode, at) for protocol in (False, True) for mode in (10, 20, 50) for at in range(0, 240, 40)]


def run_fixed(case, rec, tier):
    """A rig whose effect is off is loaded while the answer to a request is outstanding which was sent before the effect has been switched on"""
    protocol, mode, at = case
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    PB = W.get("pyswitch.controller.actions:PushButtonAction")
    sw = rig.SwModel()
    act = W.get("pyswitch.clients.kemper.actions.effect_state:EFFECT_STATE")(slot_id=km.KemperEffectSlot.EFFECT_SLOT_ID_B, mode={10: PB.LATCH, 20: PB.MOMENTARY, 50: PB.ENABLE}[mode])
    R = rig.Rig(W, inputs=[{"assignment": {"model": sw, "pixels": (0,)}, "actions": [act]}], protocol=km.KemperBidirectionalProtocol(30) if protocol else None)
    dev = kdev.Device(W, 1, R.inport, R.port, rig=7)
    dev.latency = lambda: 50
    for k in (0, 1):        # the same type in both rigs, switched off
        dev.edits[7 + k] = {(0x33, 0): 1, (0x33, 3): 0}
    dev.load(7)

    def run(ms):
        for _ in range(ms // 20):
            R.clock.advance(20)
            dev.update()
            R.c.tick()
    run(3000 + at)
    off = R.leds[0]
    sw.down = True
    run(20)
    dev.update()
    eq(dev.num[(0x33, 3)], 1, "effect state of the device after the press")
    on = R.leds[0]
    check(on != off, "pressing the switch does not change its LED")
    run(20)
    dev.load(8)
    sw.down = False
    run(3000)
    rec.n("overtaken")
    if dev.num[(0x33, 3)] == 0 and R.leds[0] != off:
        raise Violation("the effect is off on the device, but the LED shows it as on: the rig (with the effect off) was loaded %d ms after the switch had been pressed, %s bidirectional protocol"
                        % (40, "with" if protocol else "without"), key="K15 overtaken %s" % protocol)
    rec.sig(("overtaken", protocol, mode, at))
