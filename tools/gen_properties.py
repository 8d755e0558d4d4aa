#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
L = "content/lib/pyswitch/"
K = L + "clients/kemper/"
W = "web/htdocs/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["MIDI bytes written to the ports", "LED driver values", "label text and colours"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------------------------------------ inputs
prop("C01", "Every switch press triggers its actions exactly once, short or held",
 "Without hold actions, every press of a footswitch triggers each enabled action of the switch once, in configured order, and its release ends each once. "
 "With hold actions, a press released within the hold time triggers the normal actions exactly once at release and no hold action; a press lasting longer triggers each enabled hold action exactly once (with repeat: once more for each further hold time elapsed) and no normal action. "
 "No press is lost, doubled or carried into a later one, whatever the poll timing and whatever earlier presses did (actions becoming enabled or disabled only while the switch is up).",
 ["inputs", "schedules", "histories", "configurations"],
 "all press/release histories, poll timings, hold times, repeat settings and action lists (including nested lists and disabled actions)",
 "tests drive a few hand-made press sequences with a mocked period counter; they never combine poll jitter, repeat, release-detected expiry and follow-up presses",
 [L + "controller/inputs.py"],
 [("press/release edge detection and hold bookkeeping", L + "controller/inputs.py:SwitchController.process"),
  ("hold expiry", L + "controller/inputs.py:SwitchController.__check_hold")],
 ["order and count of action triggers per press"])

prop("C02", "Push button modes follow their documented state rules",
 "For every mode (enable, disable, latch, momentary, inverse momentary, latch-or-momentary by hold time, one shot, no state change) the on/off state after any sequence of pushes, releases, device feedback and resets is the one the mode documents. "
 "Each change of state made by the user sends its on or off command exactly once, and nothing is sent when the state did not change or when the change came from the device.",
 ["inputs", "histories", "schedules"],
 "all sequences of push, release, time steps, feedback values and resets in every mode and hold time",
 "tests check single push/release pairs per mode, not interleavings with device feedback, repeated pushes and hold timing",
 [L + "controller/actions/__init__.py", L + "controller/callbacks/__init__.py"],
 [("mode dispatch", L + "controller/actions/__init__.py:PushButtonAction.push/release"),
  ("user state change", L + "controller/actions/__init__.py:PushButtonAction.state")],
 ["MIDI messages sent, reported state"])

prop("C03", "Switch LEDs are divided among the enabled actions and show their colours",
 "Whenever actions draw, the LEDs of a switch are divided among its enabled LED-using actions in order: a single one gets all, with fewer actions than LEDs the first gets the surplus, and with as many or more each gets one until LEDs run out. "
 "Each LED shows the colour of its owner scaled by that owner's brightness (a multi-colour owner shows one colour per LED if the counts match, else its middle colour), and updating one action never alters LEDs of another action or of another switch.",
 ["configurations", "histories", "inputs"],
 "all numbers of LEDs and actions, enable/disable histories, colours, brightness values and state changes",
 "tests cover a few fixed LED counts with static enable states; redistribution after enable changes and colour isolation over histories are not sampled",
 [L + "controller/actions/__init__.py", L + "controller/inputs.py", L + "controller/controller.py"],
 [("segment computation", L + "controller/actions/__init__.py:Action.__get_led_segments"),
  ("LED write", L + "controller/inputs.py:SwitchController.brightnesses")],
 ["LED driver array"])

prop("C04", "Paging: exactly the selected page's actions react and are displayed",
 "After any sequence of pager pushes (rotating, direct page selection or page buttons; pages changing only while the other switches are up) exactly one page is current and it is the one the sequence selects, wrapping at the ends. "
 "Only actions whose page is current (or that have no page) react to their switch, send MIDI or write LEDs and labels; after a page change the newly shown actions redraw their true current state and hidden ones leave no later trace.",
 ["histories", "configurations", "inputs"],
 "all page sets, pager configurations, switch histories and device messages interleaved with page changes",
 "tests exercise two or three pages with one action; stale displays, hidden actions reacting to device feedback and redraw after page changes depend on histories",
 [L + "clients/local/actions/pager.py", L + "clients/local/actions/pager_direct.py", L + "controller/actions/__init__.py"],
 [("page selection", L + "clients/local/actions/pager.py:PagerAction"),
  ("enable gate", L + "controller/actions/__init__.py:Action.enabled/update"),
  ("direct selection", L + "clients/local/actions/pager_direct.py")])

prop("C05", "Expression pedal values reach the device exact, bounded and without repeats",
 "For every stream of pedal readings the value sent is the reading scaled to the parameter range, always inside that range, never sent twice in a row and never more often than the configured frame rate. "
 "A change that was held back by the frame rate is still sent by a later reading, readings in the bottom dead zone give the minimum, and with auto calibration the extremes seen map to the full range.",
 ["inputs", "schedules", "configurations", "histories"],
 "all reading sequences 0..65535, poll timings, frame rates, ranges, transfer functions and calibration settings",
 "tests use short fixed reading lists; range safety, redundancy and rate limits must hold for arbitrary noise and timing",
 [L + "controller/actions/AnalogAction.py"],
 [("scaling and auto calibration", L + "controller/actions/AnalogAction.py:AnalogAction.process")],
 ["MIDI bytes sent with timestamps"])

prop("C06", "Rotary encoder steps adjust the parameter exactly and stay in range",
 "Every encoder movement changes the controlled value by the position difference times the step, starting from the value the device last reported, clamped to 0..maximum, and exactly one message is sent per effective change and none otherwise. "
 "In preselect mode nothing is sent until accepted; accept sends the preselected value exactly once, and cancelling (by button, by another preview taking the label, or by the device changing the value) discards it so the next movement starts again from the device's value.",
 ["inputs", "histories", "schedules", "configurations"],
 "all encoder position sequences (including negative positions and jumps), device values, step sizes, accept/cancel orders and timings",
 "tests use monotone positive positions and single accept/cancel calls",
 [L + "controller/actions/EncoderAction.py", L + "clients/local/actions/encoder_button.py", L + "controller/preview.py"],
 [("position delta to value", L + "controller/actions/EncoderAction.py:EncoderAction.process"),
  ("preselect accept/cancel", L + "controller/actions/EncoderAction.py"),
  ("push button coupling", L + "clients/local/actions/encoder_button.py")],
 ["MIDI bytes sent"])

prop("C07", "Value previews are shown, blink, expire and restore the display",
 "While a preview is active the label (driven by its own callback) shows the text of the most recent preview value; after the stay time without a new preview (or after explicit end) the label again shows what it would have shown without any preview, including changes that happened meanwhile. "
 "Previews with a time limit end once and only once, and blinking previews alternate between visible and hidden at the configured pace until they end.",
 ["histories", "schedules", "inputs"],
 "all interleavings of preview calls, timer expiry, label updates and redraws from several sources on one label",
 "tests preview once or twice with mocked timers and never interleave with display updates",
 [L + "controller/preview.py", L + "ui/elements.py"],
 [("preview override and restore", L + "controller/preview.py:ValuePreview")],
 ["label text over time"])

# ------------------------------------------------------------------------------------------------ midi
prop("M01", "MIDI routing delivers every message to every routed target, once and in order",
 "Every message a routed source produces is delivered exactly once to each target routed from that source, unchanged and in source order, whether the target is another port or the application itself, and to nobody else. "
 "Messages the application sends reach exactly the targets routed from the application, once and in order; only messages of unknown or missing status are not forwarded between ports.",
 ["inputs", "configurations", "schedules"],
 "all routing graphs (merge, distribute, through, shared sources) and all message streams and arrival interleavings",
 "tests use two or three ports with a handful of messages and never use one source for both through and application routes",
 [L + "controller/midi.py", L + "hardware/adafruit/AdafruitUsbMidiDevice.py", L + "hardware/adafruit/AdafruitDinMidiDevice.py"],
 [("routing dispatch", L + "controller/midi.py:MidiController.receive/send"),
  ("external routing", L + "controller/midi.py:MidiController.__process_external_routings")],
 ["bytes written to each port, messages handed to the application"])

prop("M02", "MIDI floods never block the switches and no message is lost",
 "However fast MIDI messages arrive, all switches and pedals are polled before every single message that is taken from the ports, and every processing tick ends after a bounded number of messages (the configured limit, once per periodically updated object plus once). "
 "Every message is processed exactly once in arrival order over the following ticks, and at startup stale buffered messages are discarded when (and only when) configured so.",
 ["schedules", "inputs", "configurations"],
 "all arrival patterns, update intervals, message limits and startup backlogs",
 "tests count a few ticks with preset message lists",
 [L + "controller/controller.py"],
 [("receive loop with input polling", L + "controller/controller.py:Controller.__receive_midi_messages"),
  ("periodic updates", L + "controller/controller.py:Controller.tick"), ("buffer clearing", L + "controller/controller.py:Controller.init")],
 ["interleaving of input polls, port reads and processed messages"])

prop("M03", "Parameter values are encoded and decoded exactly for every value",
 "For every parameter and every value in its range, the sent message carries exactly that value (7 bit for controllers and programs, two 7-bit halves for 14-bit parameters) and leaves address, page and identification unchanged. "
 "A received message changes a parameter's value if and only if it matches the parameter's type and address, the value or text decoded equals the one transmitted, and two-part values combine only complete, correctly ordered pairs.",
 ["inputs", "configurations", "histories"],
 "all mappings shipped for all clients, all values, all matching and nearly matching messages in any order",
 "tests try single values on ad-hoc mappings",
 [L + "controller/client.py", K + "__init__.py", K + "mappings"],
 [("encode", L + "controller/client.py:ClientParameterMapping.set_value"),
  ("decode", L + "controller/client.py:ClientParameterMapping.parse_against"),
  ("two-part values", L + "controller/client.py:ClientTwoPartParameterMapping.parse")],
 ["message bytes, decoded values"])

prop("M04", "Every parameter request is answered once or reported as lost",
 "While a parameter is requested, at most one request per parameter is outstanding however many consumers ask, and every consumer that asked is notified exactly once: with the device's answer when it comes in time, else (between one and one and a half request lifetimes) with a loss notification that also clears the stale value. "
 "After an answer or a loss the parameter can be requested again and works normally; late, duplicate or foreign answers never notify anyone who is not waiting.",
 ["histories", "schedules", "fault_sequences"],
 "all interleavings of requests by many consumers, answers (in time, late, duplicated, reordered, lost) and time",
 "tests cover one or two requests with mocked lifetimes",
 [L + "controller/client.py", L + "controller/callbacks/__init__.py"],
 [("request registry", L + "controller/client.py:Client._register_mapping"),
  ("completion", L + "controller/client.py:ClientRequest.parse"), ("expiry", L + "controller/client.py:Client.__cleanup_hanging_requests")],
 ["request bytes sent, consumer notifications, displayed values"])

prop("M05", "Dependent parameters are refreshed for every consumer when their source changes",
 "A parameter that depends on another one is requested only when that other parameter delivered a new value (or a consumer asks for the first time), and then every consumer of the dependent parameter is notified with the answer. "
 "This holds for any number of consumers, also ones joining later, and of dependent parameters and for repeated changes; without a change no request for the dependent parameter is sent, and the loss of the source counts as loss of its dependents.",
 ["histories", "configurations", "fault_sequences"],
 "all numbers of consumers and dependent parameters, all change histories and lost answers",
 "tests use one consumer per dependent mapping",
 [L + "controller/client.py"],
 [("dependency listener", L + "controller/client.py:Client.request/_DependencyListener")],
 ["request bytes sent, label text"])

prop("M06", "Hardware adapters report the physical inputs and carry MIDI bytes faithfully",
 "A pulled-up switch reads as pushed exactly while its pin is low, pots and encoders report the pin's current reading, and before initialisation none of them reports an input. "
 "MIDI ports write each sent message as its exact byte sequence on the configured channel and turn every supported incoming byte sequence, however chunked (system exclusive ones arriving in one piece), into the corresponding message on the configured input channels only; LEDs and display are set up with the given pins, sizes and counts.",
 ["inputs", "configurations", "schedules"],
 "all pin level sequences, byte chunkings, channels and message kinds",
 "hardware adapters are not covered by the existing tests at all (they need the device's libraries)",
 [L + "hardware/adafruit"],
 [("switch level", L + "hardware/adafruit/AdafruitSwitch.py"), ("pot", L + "hardware/adafruit/AdafruitPotentiometer.py"),
  ("encoder", L + "hardware/adafruit/AdafruitEncoder.py"), ("USB MIDI", L + "hardware/adafruit/AdafruitUsbMidiDevice.py"),
  ("DIN MIDI", L + "hardware/adafruit/AdafruitDinMidiDevice.py"), ("display, LEDs, fonts", L + "hardware/adafruit/__init__.py")],
 ["values returned to the application, bytes on the ports, pin setup"])

prop("M07", "Arbitrary incoming MIDI never crashes the controller or disturbs unrelated state",
 "No sequence of incoming bytes on any port, well-formed or malformed, addressed to known parameters or not, raises an error or stops the processing loop. "
 "Messages that do not belong to any parameter in use cause no outgoing message and change no LED and no label, and after such traffic the controller behaves exactly as if it had never arrived.",
 ["inputs", "fault_sequences", "histories"],
 "all byte streams mixed with regular device traffic and user input, with and without bidirectional protocol",
 "tests only feed well-formed messages built by hand",
 [L + "controller/client.py", K + "__init__.py", L + "controller/controller.py", L + "ui/elements.py"],
 [("message matching", L + "controller/client.py:Client.receive"), ("protocol sensing", K + "__init__.py:KemperBidirectionalProtocol.receive")])

# ------------------------------------------------------------------------------------------------ kemper
prop("K01", "The bidirectional link is opened, kept alive and reopened on time",
 "While no sign of life comes from the device, the controller keeps sending the initial connection request at its retry interval and shows the offline colour; from the first sign of life after such a request on it shows the online colour and renews the lease every half lease time without any initial request (except one repetition after a lost connection came back). "
 "When no sign of life came for the sensing timeout it returns to offline and starts over; the request always carries the configured lease and tuner options, and initial requests are never sent more often than the retry interval.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all arrival times of life signs, drop-outs, lease times and tuner settings",
 "tests script a handful of mocked time steps",
 [K + "__init__.py", L + "controller/client.py", L + "ui/elements.py"],
 [("state machine", K + "__init__.py:KemperBidirectionalProtocol.update/receive")],
 ["beacon bytes with timestamps, status dot colour"])

prop("K02", "Losing the device clears stale state and reconnecting restores the true state",
 "When the device connection is lost, every action and label bound to device values stops showing the last known state as current, without sending commands. "
 "After the device returns from an outage longer than the sensing timeout, whatever happened to it meanwhile, all displays converge to the device's actual state, as if the controller had been newly started with it.",
 ["fault_sequences", "histories", "schedules"],
 "all outage times, state changes during outages and user input during outages",
 "tests do not run the application against a device over time",
 [L + "controller/client.py", K + "__init__.py", L + "controller/callbacks/__init__.py"],
 [("loss notification", L + "controller/client.py:BidirectionalClient.notify_connection_lost"),
  ("value clearing", L + "controller/callbacks/__init__.py:Callback.request_terminated")])

prop("K03", "Effect slot displays always mirror the device",
 "Once messages have settled, every effect slot action shows the colour and name of the category (or exact type name in extended mode) of the effect the device has in that slot, with brightness and dimming according to whether it is on, and an empty slot shows as not assigned and off. "
 "Pressing the switch sends exactly one on or off command for that slot, and the display again equals the device's state afterwards, whatever the order in which type and state messages arrive.",
 ["histories", "inputs", "schedules"],
 "all effect types, slots, state/type message orders, user presses and device-side changes, in bidirectional and polling mode",
 "tests feed single type/state values per case",
 [K + "actions/effect_state.py", K + "actions/effect_state_extended_names.py", L + "controller/callbacks/effect_enable.py", K + "mappings/effects.py"],
 [("type to category", K + "actions/effect_state.py"), ("type/state display", L + "controller/callbacks/effect_enable.py")])

prop("K04", "On/off parameter actions send, compare and restore values as configured",
 "Switching such an action on sends exactly the enable value(s) and switching off the disable value(s) on the configured messages; with automatic disable value it sends back the last value the device reported while the action was off. While an automatic value is not known yet nothing is sent for switching off (and, for actions with several messages, nothing for switching on either). "
 "Whenever the device reports a value different from the one before, the state becomes on exactly when that value satisfies the configured comparison with the reference, and off when the value gets lost; until then it is what the user switched. LED brightness, label dimming and text always match that state (dimmed for parameters that cannot be read, unless internal state is configured).",
 ["inputs", "histories", "configurations"],
 "all comparison modes, reference/enable/disable values, single and list messages, value histories and presses",
 "tests sample a few values per mode",
 [L + "controller/callbacks/__init__.py", L + "clients/local/actions/binary_switch.py"],
 [("evaluation", L + "controller/callbacks/__init__.py:BinaryParameterCallback.evaluate_value"),
  ("sending", L + "controller/callbacks/__init__.py:BinaryParameterCallback.state_changed_by_user")])

prop("K05", "Rig select loads exactly the configured rig and reflects the device's rig",
 "Pushing a rig select action in any mode selects exactly the rig (and bank) its configuration prescribes for the current rig on the device, by the documented key press/release sequence (bank preselect if a bank is configured, rig key down when pushed, rig key up when released), toggling to the alternative rig or back when configured; an automatic alternative is the last place the device was at other than the selected one (leaving out excluded rigs). "
 "In target display mode its LEDs and label show on exactly while the device's current rig is the selected one, with the colour and text of the rig a push would lead to; in current display mode they show the device's rig. This holds for every rig and bank the device reports.",
 ["inputs", "histories", "configurations"],
 "all rigs and banks (0..624), modes, alternate rigs, momentary/auto exclude settings and device rig changes",
 "tests sample single rig IDs",
 [K + "actions/rig_select.py", K + "actions/rig_select_and_morph_state.py", K + "mappings/select.py", K + "__init__.py"],
 [("selection", K + "actions/rig_select.py"), ("display", K + "__init__.py")])

prop("K06", "Bank select loads exactly the configured bank keeping the rig",
 "Pushing a bank select action selects the configured bank (or toggles to and from the alternative bank) and keeps the current rig slot, or only preselects it when so configured, for every rig the device may be on. "
 "LED, colour and label reflect exactly whether the device currently is in that bank (target display mode) or show the current bank, and nothing is sent while the current rig is unknown.",
 ["inputs", "histories", "configurations"],
 "all banks, rigs, modes and device rig changes",
 "tests sample single banks",
 [K + "actions/bank_select.py", K + "mappings/select.py"],
 [("selection", K + "actions/bank_select.py")])

prop("K07", "Bank up/down moves exactly one bank and wraps",
 "Each push of bank up or down sends exactly one bank up or down command or, in preselect mode, preselects the bank exactly one from the bank currently preselected (or else current), wrapping between the last available and first bank. "
 "Colours and texts shown are those of the bank that a push would lead to or the current one, depending on the display mode, with the configured dimming and brightness, for every current rig.",
 ["inputs", "histories", "configurations"],
 "all current rigs 0..624, push sequences, preselect settings and device changes in between",
 "tests sample few rig IDs",
 [K + "actions/bank_up_down.py", K + "__init__.py"],
 [("bank stepping", K + "actions/bank_up_down.py")])

prop("K08", "Rig up/down moves exactly one rig and wraps",
 "Each push of rig up or down selects exactly the next or previous rig of the one the device reports (sending the bank too if it differs), either stopping at the ends of the bank or crossing into the neighbouring bank and wrapping at the ends of all banks, as configured. "
 "The display shows the colour and name according to the configured mode for every current rig, and pushes while the rig is unknown send nothing.",
 ["inputs", "histories", "configurations"],
 "all current rigs 0..624, push sequences, keep-bank settings and device changes in between",
 "tests sample few rig IDs",
 [K + "actions/rig_up_down.py", K + "__init__.py"],
 [("rig stepping", K + "actions/rig_up_down.py")])

prop("K09", "A preselected bank is announced by blinking until it is taken or superseded",
 "After preselecting a bank, the switches of rig select actions and of the preselecting action blink evenly and rig select (target mode) and rig name displays show the preselected bank until a rig is selected by any action; selecting a rig loads that rig in the preselected bank and ends the preselection. "
 "At most one preselection is active, a new one replaces it and a rig change on the device itself does not end it. After it ended every display shows the device's actual rig again, and actions on pages not shown never touch a display.",
 ["histories", "schedules", "configurations"],
 "all interleavings of preselection, rig selection, device rig changes, page changes and time",
 "tests check single preselect steps without time",
 [K + "actions/bank_up_down.py", K + "actions/bank_select.py", K + "actions/rig_select.py", K + "actions/bank_select_encoder.py", K + "__init__.py"],
 [("shared preselection", K + "__init__.py")])

prop("K10", "Kemper function buttons send exactly their documented commands",
 "Every push and release of the morph, tap tempo, looper, effect button, rotary, freeze, fixed effect, amp, cabinet, boost, transpose and similar actions sends exactly the documented controller, program or parameter messages with the documented values and nothing else. "
 "Their LEDs and labels follow the values the device reports, including morph colour blending and the tempo flash.",
 ["inputs", "histories", "configurations"],
 "all such actions with all documented options, push/release histories and device values",
 "tests check construction details of the actions and few sent values",
 [K + "actions", K + "mappings"],
 [("actions", K + "actions"), ("mappings", K + "mappings")])

prop("K11", "Tuner mode takes over and returns the controller cleanly",
 "While the device is in tuner mode the tuner screen is shown, every footswitch pressed as configured only ends tuner mode, and no other action is triggered; when tuner mode ends by whatever cause, the normal screen, LEDs and labels are exactly those of the device's current state. "
 "A press belongs to whoever got its push: one which began before tuner mode is finished by its actions (so nothing stays switched on or held), one which began in tuner mode triggers no action, not even by its release after tuner mode has ended.",
 ["histories", "schedules", "configurations"],
 "all interleavings of tuner mode changes, presses, releases, splash changes and device messages",
 "tests toggle tuner mode once or twice",
 [K + "__init__.py", K + "actions/tuner.py", L + "ui/UiController.py"],
 [("tuner splash and override", K + "__init__.py:TunerDisplayCallback")])

prop("K12", "The tuner display shows the device's note and deviation exactly",
 "In tuner mode the note name shown is the device's note modulo twelve, the deviation marker position is the scaled deviation and always inside the display, and the in-tune colour is shown exactly for deviations inside the calibrated window. "
 "With LED strobe the switch LEDs run in the direction and at the speed given by the deviation, only in tuner mode, and leave LEDs in their normal state afterwards.",
 ["inputs", "histories", "configurations"],
 "all notes 0..127, deviations 0..16383, zooms, calibrations, display sizes and update orders",
 "tests sample a few deviations",
 [L + "ui/elements.py", K + "__init__.py", L + "controller/strobe.py"],
 [("marker and note", L + "ui/elements.py:TunerDisplay"), ("strobe", L + "controller/strobe.py")],
 ["rectangle positions and colours, label text, LEDs"])

prop("K13", "The rig name display shows the device's rig name and ID exactly",
 "The rig name label shows exactly the current rig's name as sent by the device (the default text if it is empty) and, depending on its mode, the rig and bank number in the documented format, and updates on every rig change. "
 "When the connection is lost it no longer shows the old rig name, and any text received from the device, of any length and content, is displayed without error; parameter displays show the (converted) value or their default text likewise.",
 ["inputs", "histories", "configurations"],
 "all names, rig IDs 0..624, modes, offsets and message orders",
 "tests sample few names",
 [K + "__init__.py", L + "controller/callbacks/parameter_display.py"],
 [("rig name", K + "__init__.py:KemperRigNameCallback"), ("parameter display", L + "controller/callbacks/parameter_display.py")],
 ["label text"])

prop("K14", "Controller and virtual device stay in agreement end to end",
 "Running the real controller configuration against the project's own virtual device over a lossless link, after any sequence of foot switch and device-side events the controller's displays agree with the virtual device's state once traffic settles. "
 "Every controller action has exactly the effect on the virtual device that the action documents.",
 ["histories", "schedules", "configurations"],
 "all event sequences on both sides, with arbitrary interleaving of their update loops",
 "no existing test connects both sides",
 [W + "js/clients/kemper/virtual", K + "__init__.py"],
 [("virtual device", W + "js/clients/kemper/virtual"), ("controller", L + "controller/controller.py")])

prop("K15", "What is shown depends only on the page selected and on the device's state",
 "What LEDs and labels show for the actions enabled on a page, and what pressing their switches sends, is a function of the page and of the device's state: after any history of page changes, device changes, presses and outages it equals, once traffic settles, "
 "what a freshly started controller shows and sends which went to that page directly - labels and LEDs shared with actions of other pages included.",
 ["histories", "configurations", "schedules"],
 "all configurations of Kemper actions on pages, all histories of page changes, presses, device changes and outages, timing of the device's answers",
 "tests look at one action and one change at a time, with mocked clients; leftovers of other pages show only in histories",
 [L + "controller/callbacks", L + "controller/actions", L + "clients/local/actions/pager.py"],
 [("display state of callbacks", L + "controller/callbacks/__init__.py"), ("pager", L + "clients/local/actions/pager.py")])

# ------------------------------------------------------------------------------------------------ local
prop("L01", "Custom and rotating message actions send exactly the configured messages",
 "Custom message actions send exactly the configured raw message on press, release or hold as configured, for every message length and type, and show the configured text and colour. "
 "Rotating message actions (including the Boomerang set) send the messages of the next step on each push in configured order with wrap-around, and label and LED always show that step's text, colour and brightness.",
 ["inputs", "histories", "configurations"],
 "all byte messages, step lists, texts, colours and push histories",
 "tests sample two or three messages",
 [L + "clients/local/actions/custom.py", L + "clients/local/actions/rotate.py", L + "clients/boomerang/actions/boomerang.py", L + "debug_tools.py"],
 [("raw message", L + "clients/local/actions/custom.py"), ("rotation", L + "clients/local/actions/rotate.py")])

prop("L02", "Keyboard actions press and release exactly the configured keys",
 "Pushing a keyboard action presses exactly the configured key codes (one or several) once and leaves no key stuck down after its release. "
 "Other actions on the same or other switches are unaffected, and LED and label show the configured colour and text.",
 ["inputs", "histories", "configurations"],
 "all key sets and push/release histories of several keyboard actions",
 "tests press once",
 [L + "clients/local/actions/hid.py"], [("key reports", L + "clients/local/actions/hid.py")],
 ["keyboard reports, LED values, label text"])

prop("L03", "Parameter up/down steps exactly and stays within the parameter's limits",
 "Every push of a parameter up or down action changes the value by exactly the configured offset relative to the device's (or last sent) value, clamped to the parameter's limits, repeating at the configured rate while held, and sends each new value exactly once. "
 "The preview shows the value just set, and the fixed text action shows its text whatever else happens.",
 ["inputs", "histories", "schedules", "configurations"],
 "all start values, offsets, limits, hold times and device changes in between",
 "tests sample few steps",
 [L + "clients/local/actions/param_change.py", L + "clients/local/actions/fixed_text.py"],
 [("value stepping", L + "clients/local/actions/param_change.py")])

# ------------------------------------------------------------------------------------------------ ui
prop("U01", "Labels show exactly the last text and colours set, readable and wrapped",
 "What is on screen for a label is always exactly the last text and back colour set on it, wrapped to its maximum width without losing characters, and without a configured text colour the text is black or white, whichever contrasts with the current background (of several background colours the middle one is shown). "
 "While the controller is low on memory labels show the low memory notice instead, and setting an unchanged value redraws nothing.",
 ["histories", "inputs", "configurations"],
 "all sequences of text and colour changes before and after the label is drawn, with all layouts",
 "tests set few values",
 [L + "ui/elements.py"], [("label", L + "ui/elements.py:DisplayLabel")],
 ["screen elements"])

prop("U02", "The screen always shows the splash that is current, and only it is updated",
 "The visible screen is always the splash the configuration selects for the current parameter values, each splash is built once and complete (all its elements in order), and switching back and forth never duplicates, drops or re-creates elements. "
 "Only elements of the visible splash are updated periodically, and elements of hidden splashes show the current state when shown again.",
 ["histories", "configurations"],
 "all splash trees and switching histories",
 "tests switch once",
 [L + "ui/UiController.py", L + "ui/ui.py", L + "clients/local/callbacks/splashes.py"],
 [("splash switching", L + "ui/UiController.py:UiController.show"), ("element tree", L + "ui/ui.py:DisplayElement")],
 ["displayed root group and its contents"])

prop("U03", "Layout helpers and split containers tile the screen without overlap or loss",
 "Removing a strip from a screen area yields a strip of exactly the requested size adjacent to the remaining area, together covering exactly the original; the non-removing variants and translations leave the original untouched. "
 "Split containers place their present children side by side in order with equal size, inside the container and covering it up to rounding, also when nested or extended later.",
 ["inputs", "configurations"],
 "all integer areas, amounts and container trees",
 "tests sample single rectangles",
 [L + "ui/layout.py", L + "ui/DisplaySplitContainer.py", L + "ui/ui.py"],
 [("layout functions", L + "ui/layout.py"), ("split container", L + "ui/DisplaySplitContainer.py")],
 ["element bounds"])

# ------------------------------------------------------------------------------------------------ system
prop("B01", "Every shipped configuration and template loads and runs under any use",
 "Every configuration shipped as default, example or template loads on its hardware and then survives any sequence of switch, pedal, encoder and MIDI events without raising an error. "
 "Each switch of each configuration reacts only through its configured actions, and every MIDI message sent is well-formed.",
 ["configurations", "histories", "inputs", "schedules"],
 "all shipped configurations times random event histories",
 "the tests never load the shipped configurations",
 ["content", "examples", W + "templates"],
 [("start-up", L + "process.py"), ("configurations", "content, examples, web/htdocs/templates")])

prop("B02", "Start-up wires the configured system and reports configuration errors",
 "Start-up shows the display first, builds the controller exactly from the configured communication, inputs, splashes and options, and keeps processing until stopped, in normal operation with and without the file transfer bridge. "
 "An error in loading or running the user's configuration is reported through the file transfer bridge when that is enabled and raised to the console otherwise, never silently swallowed.",
 ["configurations", "fault_sequences"],
 "all combinations of options and faults at each stage of start-up and processing",
 "tests cover fixed cases of the start-up script with everything mocked",
 [L + "process.py", L + "controller/controller.py"], [("start-up", L + "process.py")],
 ["component wiring, reported errors"])

prop("B03", "Explore mode identifies every pressed pin and steps through all LEDs",
 "In explore mode every usable pin of the board is listed by its name and watched (pins which cannot be used are left out), and each press is reported once with the name of exactly that pin, which is marked as the latest pressed one while pins pressed before keep another mark. "
 "Each press advances (every second pin: goes back) the lit switch position by one, wrapping at the ends; exactly the LEDs of that position are lit white and named on screen and console.",
 ["inputs", "histories", "configurations"],
 "all boards (pin sets), press histories",
 "tests press a few pins",
 [L + "controller/explore.py"], [("explore mode", L + "controller/explore.py")],
 ["label texts, LED array"])

prop("B04", "Board definitions assign each input and LED consistently",
 "Within every supported board definition, every switch, pedal and encoder has its own pins, no two switches share an LED, all LED indices from 0 to the highest are used exactly once, and alternative uses of one jack stay on the same pins. "
 "Every definition can be used to set up an input, and the name used by the editor for each exists in the definition.",
 ["configurations"],
 "all board definition files and all entries and pairs of entries in them",
 "tests never import the board definitions",
 [L + "hardware/devices"], [("definitions", L + "hardware/devices")],
 ["definition entries"])

prop("B05", "Boot scripts expose USB and start the firmware exactly as the held switches say",
 "At boot the USB drive stays enabled exactly when the boot switch is held, and otherwise is disabled and the file system is made writable for the controller. "
 "Automatic reload is always disabled, and switches are read only after they had time to settle. The multi-boot start scripts start exactly the firmware belonging to the held switch; the one which remembers the choice starts "
 "the last chosen one when no switch is held, and some firmware is always started, whatever the remembered file contains - also after power was lost or writing failed while remembering.",
 ["configurations", "schedules", "crash_points", "histories"],
 "all switch levels, settle times, boot histories, file contents, write failures and power cuts while remembering",
 "no test runs the boot scripts",
 ["content/boot.py", "content/code.py", "examples/Multiboot"], [("boot", "content/boot.py"), ("multi boot", "examples/Multiboot")], ["calls to storage, supervisor and pins", "firmware module started", "remembered file"])

prop("B06", "Diagnostic options only print",
 "Any combination of the documented diagnostic options (runtime and client statistics, protocol messages, sent and unparsed messages, message types excluded, values of one parameter) changes nothing of what the controller does: "
 "the same MIDI messages are sent at the same time and the same LEDs and display contents are shown as without them, for any configuration, device and use, and nothing fails. "
 "What is printed is what happened: every message which belongs to nothing and is not of an excluded type, the messages sent for parameters, the values received for the watched parameter and no others, statistics in the configured period; "
 "without the options nothing is printed.",
 ["configurations", "histories", "inputs"],
 "all combinations of options, configurations, device states and histories of use",
 "the code of the options is excluded from the tests' coverage and never runs there",
 ["content/config.py", L + "controller", L + "debug_tools.py"], [("client", L + "controller/client.py"), ("statistics", L + "controller/measure.py"), ("protocol", L + "clients/kemper/__init__.py")], ["MIDI bytes and times", "LED colours and display contents", "printed lines"])

# ------------------------------------------------------------------------------------------------ web
prop("W01", "The editor's parser reproduces every configuration without loss",
 "Reading any configuration in the editor and writing it back unchanged yields code that is equivalent to the original: all inputs, actions, arguments, splashes, assignments and definitions of the user survive, and so do comments outside the definitions the editor writes anew. "
 "Repeating read and write changes nothing further.",
 ["programs", "inputs"],
 "all valid inputs/display files (shipped and generated)",
 "the parser's tests are not part of the runnable test suite",
 [W + "python/parser"], [("read/write", W + "python/parser/PySwitchParser.py")], ["generated source files"])

prop("W02", "Editing one input in the editor changes only that input",
 "Replacing the actions of one input (or one splash element) through the editor results in code where exactly this item has the new content and every other item is unchanged. "
 "The changed file loads and has the meaning that the edited data describes.",
 ["programs", "inputs", "histories"],
 "all configurations, edit positions, edit contents and edit sequences",
 "the parser's tests are not part of the runnable test suite",
 [W + "python/parser"], [("replace", W + "python/parser/PySwitchParser.py"), ("code generation", W + "python/parser/misc/CodeGenerator.py")],
 ["generated source files"])

prop("W03", "Generated code imports exactly what it uses",
 "The code the editor writes imports every name of the framework's actions, mappings, callbacks and hardware it uses, each from the module that defines it. "
 "It has no unused framework imports and keeps the user's own imports that are still used.",
 ["programs", "inputs"],
 "all configurations and edits",
 "the parser's tests are not part of the runnable test suite",
 [W + "python/parser", W + "definitions"], [("imports", W + "python/parser/misc/AddImportsTransformer.py"), ("unused imports", W + "python/parser/misc/RemoveUnusedImportTransformer.py")],
 ["generated source files"])

prop("W04", "The editor's catalogue matches the firmware's actions and parameters",
 "Every action, mapping and callback the editor offers exists in the firmware under the given module and name and accepts exactly the parameters offered, with the defaults offered. "
 "Every offered default combination, and every offered value for a single parameter, can be used on the device without failing (texts cannot be switched or moved; labels of actions need an initial color).",
 ["configurations"],
 "all catalogue entries and their parameters",
 "no runnable test compares the catalogue to the code",
 [W + "definitions", L + "clients"], [("catalogue", W + "definitions")], ["catalogue entries against imported code"])

prop("W05", "The virtual device implements the device protocol it simulates",
 "The virtual device answers every parameter request with the current value of that parameter in the device's format, applies every set command exactly to the addressed parameter, and in bidirectional mode reports every change of the parameters in the set exactly once while the lease lasts. "
 "Rig and bank selection, preselection and wrap-around follow the device's rules for all 625 rigs.",
 ["inputs", "histories", "schedules"],
 "all messages, parameter values, rigs and lease timings",
 "the virtual device has no runnable tests here",
 [W + "js/clients/kemper/virtual"], [("virtual device", W + "js/clients/kemper/virtual")], ["messages sent by the virtual device"])

prop("W06", "The emulator's MIDI codec is a faithful inverse pair",
 "Every MIDI message encoded by the emulator's MIDI library decodes to an equal message, and every byte stream of whole messages, however it is split into reads and interleaved with unknown status bytes and stray data bytes, decodes to exactly the sequence of valid messages it contains for the selected channels. "
 "A System Exclusive message is taken to arrive in one piece which fits the input buffer. "
 "Out-of-range values are rejected and never sent.",
 ["inputs", "schedules"],
 "all messages, channels, chunkings and garbage",
 "the library copy is not tested",
 [W + "python/adafruit_midi"], [("codec", W + "python/adafruit_midi/midi_message.py")], ["decoded messages"])

prop("W07", "Navigations in the web application run one after another, each exactly once",
 "Operations put into the web application's queue, and navigations, run in the order triggered with the context they were triggered with, never overlap, and each runs exactly once. "
 "An operation which fails does not stop later ones, and a failed navigation is reported. "
 "This holds for any timing of asynchronous operations and for operations which queue further operations.",
 ["schedules", "histories"],
 "all operation timings, queueing orders and failures",
 "the web application has no runnable tests here",
 [W + "js/routing"], [("queue", W + "js/routing/CallbackQueue.js"), ("routes", W + "js/routing/Routing.js")], ["start/end events of operations", "configurations loaded"])

prop("W08", "What is saved in the web application can be loaded again unchanged",
 "A configuration saved as preset, to a controller over MIDI or to a local folder is afterwards stored there byte for byte, is loaded again unchanged from there whatever its name is, and nothing else stored is changed. "
 "Success is reported only if everything has been stored; a failure reported by the destination is shown to the user and the configuration keeps being marked as changed. "
 "Unsaved changes are dropped only after the user has confirmed this; renaming or deleting one stored thing changes no other. "
 "This holds for any contents and names, any history of loading, editing, saving and reloading the page, several connected controllers, and failing destinations.",
 ["inputs", "histories", "faults"],
 "all contents, names, destinations and histories",
 "the web application has no runnable tests here",
 [W + "js"], [("saving", W + "js/model/configurations/Configuration.js"), ("transfer", W + "js/DeviceController.js"), ("UI", W + "js/ui/PySwitchUI.js"), ("presets", W + "js/model/Presets.js")], ["stored files", "messages to the user", "loaded contents"])

prop("W09", "The emulator in the web application behaves like the controller",
 "For the same configuration, device, user actions, incoming MIDI and elapsed time, the emulator sends the same MIDI messages and key events and shows the same LED colours and display contents, update by update, as the firmware on the controller. "
 "It finds all modules a configuration needs, takes over the configuration on display when another one is opened, and stops when told to.",
 ["inputs", "histories", "schedules"],
 "all configurations, histories of use and device states",
 "the emulator has no runnable tests here; two implementations must agree for every history",
 [W + "python/PySwitchRunner.py", W + "python/wrappers", W + "js/PySwitchRunner.js", W + "js/ui/PySwitchFrontend.js"], [("runner", W + "python/PySwitchRunner.py"), ("file system", W + "js/PySwitchRunner.js"), ("wrappers", W + "python/wrappers")], ["MIDI bytes", "LED colours", "key events", "display contents"])

prop("W10", "The settings page, config.py made from it and the emulator use the same settings",
 "The values shown on the settings page of the web application are those in effect: the config.py downloaded from there is valid Python and makes the firmware behave as with all values shown given explicitly, also where values are left to defaults, and so does the emulator started from there. "
 "The MIDI channels shown are those the emulator listens to and sends on. Setting a field changes the setting it is labelled with and no other; settings survive reloading the page; an input which is no number or no MIDI channel does not become a setting. "
 "This holds for any history of setting, resetting, applying and reloading.",
 ["inputs", "histories"],
 "all values and histories of settings",
 "the web application has no runnable tests here; the page, config.py and the firmware keep separate lists of defaults which must agree",
 [W + "js/model/ConfigFile.js", W + "js/ui/misc/EmulatorSettings.js", W + "templates/config-template.py"], [("page", W + "js/ui/misc/EmulatorSettings.js"), ("config.py", W + "js/model/ConfigFile.js"), ("template", W + "templates/config-template.py")], ["fields shown", "config.py", "settings handed to the emulator", "behaviour of the firmware"])

prop("W11", "The MIDI monitor shows every message exactly once, as what it is",
 "While the MIDI monitor of the web application runs, every message the emulator receives or sends is listed exactly once, in order, with its direction, all its bytes (decimal or hexadecimal) and, for the device parameters known, control and program changes, the name and exact value of what it is about; the list keeps its latest 100 lines. "
 "Exactly the messages which are on the ignore list (by name, or by bytes if they have none) are left out; ignoring a line adds it there and removing it shows such messages again. Nothing is listed while the monitor is paused. "
 "Which columns are shown, running or paused, and the ignore list survive reloading the page. This holds for any messages and any history of use.",
 ["inputs", "histories"],
 "all messages and all histories of running, pausing, clearing, ignoring, switching views and reloading",
 "the web application has no runnable tests here; ignoring and dropping old lines depend on histories",
 [W + "js/ui/misc/MidiMonitor.js", W + "python/wrappers/wrap_adafruit_midi.py", W + "clients/kemper/virtual/VirtualKemperClient.js"], [("list", W + "js/ui/misc/MidiMonitor.js"), ("names and values", W + "clients/kemper/virtual/VirtualKemperParameter.js"), ("tap", W + "python/wrappers/wrap_adafruit_midi.py")], ["lines listed", "ignore list", "local storage"])

prop("W12", "The editor warns exactly about displays used by several actions at a time",
 "The editor lists for each display exactly the actions showing something there, and warns about exactly those actions which share a display with another one while both are enabled for some selection of pages of the pagers. "
 "Actions on different pages of one pager do not share; actions without a page, hold actions and the pagers themselves count as well, also when a pager is on a page of another pager. "
 "This holds for any configuration, for displays passed by name or position, and again after every edit.",
 ["configurations", "histories"],
 "all configurations of displays, pages and pagers, and histories of edits",
 "the web application has no runnable tests here; which actions are enabled together is decided by the firmware, and buffered results have to follow edits",
 [W + "js/model/parser/ParserChecks.js", W + "js/model/parser/ParserInputAction.js"], [("warnings", W + "js/model/parser/ParserChecks.js"), ("pages", W + "js/model/parser/ParserInputAction.js")], ["warnings per action", "usages per display"])

prop("W13", "The emulator is connected to exactly the client selected or detected",
 "Whatever MIDI ports exist, whatever devices answer on them and when, and in whatever order configurations are loaded and clients selected: once things have settled, the emulator is connected to exactly "
 "the port or virtual device selected last, or with automatic selection to the first port on which a device of the type the configuration uses answers the detection in time, else to a virtual device of this type. "
 "All messages of this port reach the emulator once and in order, none of other ports do, what the emulator sends goes to this port only, and replaced connections are shut down. "
 "Detections still running never override a later choice.",
 ["schedules", "histories"],
 "all sets of ports, answer times and histories of configurations and selections",
 "the web application has no runnable tests here; detection runs concurrently on all ports with timeouts, and overlaps with the user's choices",
 [W + "js/ClientController.js", W + "js/midi/MidiHandler.js", W + "js/midi/PythonMidiWrapper.js", W + "clients/kemper/KemperClientDetector.js"], [("detection", W + "js/ClientController.js"), ("ports", W + "js/midi/MidiHandler.js")], ["settled connections", "messages per port"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
