"""Per property: (oracle, domain and limits) for DESIGN.md."""
NOTES = {
"C01": ("triggers are derived from each polled press only (start, duration, hold time, repeats) and compared with the recorded push/release calls of the actions, per tick", "enabled flags change only while the switch is up; the poll is the only view of the switch"),
"C02": ("state machine per documented mode, fed by the same pushes, releases, feedback and resets; every MIDI message is accounted for", ""),
"C03": ("division of the switch's LEDs among owners recomputed from the enabled flags; pixel buffer compared after each tick", "LED tolerance ±1 (rounding)"),
"C04": ("model of the current page by the sequence of pager pushes; differential comparison of reactions and displays with the page shown from the start", "pages change while other switches are up"),
"C05": ("model of scaling, dead zone, frame rate and calibration per reading; every value sent is compared, and bounded in time", ""),
"C06": ("model of position differences × step relative to the last value reported by the device", ""),
"C07": ("label text and colour over time from the list of previews; expiries counted", ""),
"M01": ("offline: per target the recorded messages must be the in-order merge of the routed sources' messages, exactly once, unchanged except for the channel of a target port", "order is per source"),
"M02": ("per tick log of polls and messages: switch polls before each message, bounded count per tick, conservation and order over the whole run", ""),
"M03": ("independent table of addresses and kinds of all shipped mappings; each byte written and each decoded value compared", ""),
"M04": ("log of requests on the wire and notifications per consumer; at most one outstanding, exactly once, loss in the window of 1 to 1.5 lifetimes", ""),
"M05": ("log of requests of dependent parameters and notifications compared with changes of the source", "a consumer joining later asks for the value itself"),
"M06": ("pins, ports and constructor arguments recorded by hardware stand-ins; bytes by an independent MIDI encoder/decoder", "SysEx in one piece"),
"M07": ("metamorphic: the same run with and without garbage traffic must have identical output; every exception is a violation", ""),
"K01": ("timed protocol automaton over the bytes sent and life signs received", ""),
"K02": ("metamorphic: after reconnection all displays equal those of a controller newly started with the device", "the tuner mode is kept until the device says otherwise"),
"K03": ("category, colour, name and state from an independent table of effect types, compared with label and LEDs once settled; commands counted", ""),
"K04": ("model of comparison modes and automatic values", "several mappings in lists included; unknown automatic off value sends nothing"),
"K05": ("independent model of rig/bank selection (`vlib/rigsel.py`) predicts commands and displays for each press", ""),
"K06": ("as K05", ""), "K07": ("as K05", ""), "K08": ("as K05", ""),
"K09": ("as K05, plus blinking measured on the LEDs in virtual time", ""),
"K10": ("table of documented messages per function; LED/label model per reported value, morph colours, tempo flash times", "states arriving while the action's displays are disabled are unconstrained"),
"K11": ("model of ownership of each press; after tuner mode the displays are compared with a controller which never was in it", "a press spanning both start and end of tuner mode is excluded"),
"K12": ("note, marker position and colour from the values sent; strobe direction and period measured on the LEDs", "marker tolerance 1.1 px; label colour before the first deviation unconstrained"),
"K13": ("text formatting model, connection states", "a label showing only the ID keeps its initial text until the ID is received; an empty name shows the default text"),
"K14": ("the project's virtual device in node connected byte by byte; displays compared with its parameter values, its parameters with the documented effect", "morph display and commands on empty slots excluded; bidirectional mode"),
"K15": ("a second, freshly started instance of the real controller predicts LEDs and labels", "tuner mode, fixed texts without colour and binary switches whose comparison cannot tell on from off are excluded; the device is left alone for 600 ms after a press; no presses while an outage is not yet noticed (commands are lost for good then); commands of rig volume boosts (restore a value seen before) and the state of effect buttons (their own) are excluded, as are switches with several enabled actions. The known finding is a genuine race (36 fixed cases): ignoring equal values is how answers which were outstanding at the press are kept from flickering, so a repair needs requests to be matched with answers"),
"L01": ("raw messages by configured lists; step counter for rotating ones", "of a switch with hold actions, hold actions fire push and release at hold time, others at release of a short press"),
"L02": ("key reports as the host sees them", ""),
"L03": ("model of steps relative to the last known value", "a limit may be sent again; a repeat comes between interval and interval + 260 ms after the one before"),
"U01": ("displayed text is unwrapped and compared; contrast by luminance; drawing calls counted for unchanged values", "luminance 130–150: either colour; several background colours: one of them is drawn"),
"U02": ("element tree on screen compared with the splash selected by the model; calls of update recorded per element", "elements shared by several splashes excluded"),
"U03": ("exact integer geometry: adjacency, coverage, disjointness", "amounts 0..size, fractions truncated"),
"B01": ("hardware stand-ins per board; reaction oracle: messages only in ticks in which an input changed or the protocol is due; well-formedness by an independent parser", "single changed pin for the reaction oracle"),
"B02": ("start-up event log of real process.py with generated configurations; errors injected at each stage", "an error in the configuration of the communication itself is raised to the console even with bridge"),
"B03": ("names and marks of pins, LEDs and console compared after each press", "LED state before the first press unconstrained; boards without LED driver excluded"),
"B04": ("structural invariants per board plus wiring table of the physical device, strobe order, and use of every definition on the real adapters", ""),
"B05": ("log of USB/file system calls of the boot scripts for all switch states, file contents and write failures", "power cut while writing may lose the previous choice. The known finding is a genuine defect which is not repaired only because its file lies under examples, which our commits must not change"),
"B06": ("metamorphic: the same run without the options; printed lines against the messages observed", "with runtime statistics the order of messages within one update may differ (an additional updated element); requests are not among the sent messages printed; the wording of lines is not checked"),
"W01": ("both texts are executed with recording stand-ins; the canonical graphs of what they define (with sharing) must be equal; comments compared as text", "Inputs is a list display, each name is assigned once, actions are calls or names of calls, pages are a list or a local name"),
"W02": ("random editing session mirrored on the generator's own model; the meaning of the written code must equal the model", "raw expressions as actions, pages by imported name and backslashes with quoting helpers are excluded"),
"W03": ("names loaded by the code, names imported, names defined by the modules", "states equal to the source and those directly after raw source edits are skipped"),
"W04": ("catalogue entries against the signatures of the firmware; every offered default combination and every offered value run on real process.py", "labels of actions need a back color; texts cannot be switched or moved; bank_off is required with rig_off and bank"),
"W05": ("specification of the device protocol as a model; every message and every parameter compared after every step", "reporting a rig ID without change and keepalive counters after the end of a lease are tolerated; programs or bank as inputs and banks above 124 excluded"),
"W06": ("independent encoder of MIDI 1.0", ""),
"W07": ("event log of starts/ends, contexts, routes", ""),
"W08": ("reference model of all stored things", "empty files, unplugging the device during transfer and re-opening the same URL excluded"),
"W09": ("the firmware itself: the same history on real process.py with the firmware's drivers, compared tick by tick", ""),
"W10": ("model of the settings; the firmware run with config.py, with the emulator's settings and with all values shown given explicitly must behave the same", "an input which is no number or channel may keep the value or fall back to the default; explore mode is compared as a value only"),
"W11": ("online model of the list of lines and of the ignore list; names and values against the messages generated", "what a comment line says is unconstrained; the hex switch need not change lines already shown; a second line of the same name may or may not be added to the ignore list"),
"W12": ("the firmware run with the configuration, all selections of pages visited: actions enabled together with the same label", "ids of pages are written alike everywhere (quotes); actions on pages which do not exist are not generated; preview and change displays do not count, as they only show something while in use"),
"W13": ("the client the emulator must be connected to, computed from the answers delivered by the simulated ports and the last choice; message logs per port and connection", "ports of the same name and ports coming or going while the page is open are excluded; while a detection runs, the connection is unconstrained; when detections overlap, any port which answered may be chosen"),
}
