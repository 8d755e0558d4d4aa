PROPERTY = "C04"
NEEDS = "a pager whose page IDs are not configured in ascending order, and a button selecting a page directly"
BREAKS = "the button selects the first page with an ID not below the requested one instead of the requested page"
EDITS = [("content/lib/pyswitch/clients/local/actions/pager.py", """            if self.pages[index]["id"] == page_id:
                return index
        return None""", """            if self.pages[index]["id"] >= page_id:
                return index
        return None""")]
DEMO = """
W = env.World()
Pager = W.get("pyswitch.clients.local.actions.pager:PagerAction")
Push = W.get("pyswitch.controller.actions:PushButtonAction")
p = Pager(pages=[{"id": 3, "color": (1, 1, 1)}, {"id": 1, "color": (2, 2, 2)}, {"id": 2, "color": (3, 3, 3)}])
sw = [rig.SwModel() for _ in range(2)]
R = rig.Rig(W, inputs=[{"assignment": {"model": sw[0], "pixels": (0,)}, "actions": [p]},
                       {"assignment": {"model": sw[1], "pixels": (1,)}, "actions": [p.proxy(2)]}], ui=False)
sw[1].down = True
R.tick(10)
assert p.current_page_id == 2, p.current_page_id
"""
