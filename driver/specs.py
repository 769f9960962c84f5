# What each check runs: (harness, seconds, bounds) per tier.
QUICK = {
 "C01": [("C01_LDS", 40, {"pushes": 2}), ("C01_RDS", 40, {"pushes": 2}), ("C01_CDS", 40, {"pushes": 2}), ("C01_EDS", 40, {"pushes": 2}),
  ("C01_LDS", 30, {"pushes": 3, "resources": 1}), ("C01_RDS", 30, {"pushes": 3, "resources": 1}), ("C01_CDS", 30, {"pushes": 3, "resources": 1}), ("C01_EDS", 30, {"pushes": 3, "resources": 1}),
  ("C01_CDS", 30, {"pushes": 3, "evict": 1, "kinds": 1}), ("C01_EDS", 30, {"pushes": 3, "evict": 1, "kinds": 1}), ("C01_Mixed", 50, {"pushes": 3}),
  ("C01_LDS", 40, {"pushes": 2, "kinds": 3, "names": 3, "resources": 3}), ("C01_CDS", 40, {"pushes": 2, "kinds": 3, "names": 3, "resources": 3}), ("C01_RDS", 40, {"pushes": 2, "kinds": 3, "names": 3, "resources": 3}), ("C01_EDS", 40, {"pushes": 2, "kinds": 3, "names": 3, "resources": 3}),
  ("C01_CDS", 30, {"pushes": 3, "kinds": 1, "names": 3, "resources": 2}), ("C01_EDS", 30, {"pushes": 3, "kinds": 1, "names": 3, "resources": 2}), ("C01_Alias", 30, {})],
 "C02": [("C02_Seq", 90, {}), ("C02_NDS", 30, {})],
 "C03": [("C03_Ops", 60, {}), ("C03_Start", 20, {}), ("C03_Race", 80, {})],
 "C04": [("C04_Resub", 80, {}), ("C04_Start", 20, {}), ("C04_Auth", 20, {}), ("C04_AuthMany", 60, {}), ("C04_AuthStart", 20, {}), ("C04_Race", 80, {})],
 "C05": [("C05_Kind", 20, {}), ("C05_Deadline", 20, {}), ("C05_Placeholder", 20, {}), ("C05_Race", 90, {"delays": 2}), ("C05_Race", 60, {"anytime": 0}), ("C05_Stuck", 20, {}), ("C05_NoServer", 60, {})],
 "C06": [("C06_Waiters", 60, {"delays": 1}), ("C06_Waiters", 120, {"delays": 2, "other": 1}), ("C06_Waiters", 60, {"delays": 1, "types": 4, "times": 2}), ("C06_Again", 60, {})],
 "C07": [("C07_Lin", 120, {"delays": 2}), ("C07_Two", 60, {"delays": 2}), ("C07_Evict", 45, {"delays": 2}), ("C07_Evict", 20, {"delays": 3}), ("C07_Suite", 80, {"delays": 2}), ("C07_Route", 90, {"delays": 2})],
 "C08": [("C08_Order", 60, {"routes": 2}), ("C08_Order", 60, {"routes": 3, "kinds": 2, "forms": 0}), ("C08_Cond", 80, {"conds": 2}), ("C08_Precedence", 80, {"routes": 1}), ("C08_Protocol", 20, {})],
 "C09": [("C09_Exact", 90, {}), ("C09_Support", 50, {}), ("C09_Share", 50, {})],
 "C10": [("C10_Resolve", 80, {"maxloc": 2, "maxep": 1, "times": 2}), ("C10_Resolve", 80, {"maxloc": 1, "maxep": 2}), ("C10_History", 100, {"pushes": 3})],
 "C11": [("C11_Route", 60, {"deviations": 2}), ("C11_Listener", 120, {"deviations": 2})],
 "C12": [("C12_Cluster", 80, {"deviations": 3}), ("C12_Endpoints", 60, {"deviations": 3}), ("C12_Table", 30, {"deviations": 3})],
 "C13": [("C13_Decode", 100, {"deviations": 2}), ("C13_Loop", 100, {"deviations": 2})],
 "C14": [("C14_Bind", 90, {"entries": 1}), ("C14_Bind", 40, {"entries": 2, "maxlabels": 2, "configs": 1}), ("C14_Free", 20, {}), ("C14_History", 80, {"steps": 3}), ("C14_History", 80, {"warm": 1, "steps": 3})],
 "C15": [("C15_Step", 80, {}), ("C15_NoPanic", 60, {"deviations": 1}), ("C15_NoPanic", 35, {"deviations": 2}), ("C15_Withheld", 20, {})],
 "C16": [("C16_History", 60, {"clusters": 1}), ("C16_History", 100, {"events": 1}), ("C16_History", 50, {"pushes": 2}), ("C16_History", 130, {"events": 1, "clusters": 1, "pushes": 4})],
 "C17": [("C17_Fields", 100, {"pushes": 2, "maxms": 9}), ("C17_Fields", 80, {"pushes": 1, "maxms": 99}), ("C17_History", 90, {"pushes": 2}), ("C17_History", 45, {"pushes": 3, "events": 1}), ("C17_Evict", 20, {})],
 "C18": [("C18_Select", 50, {"chains": 2}), ("C18_History", 80, {"pushes": 2}), ("C18_History", 45, {"pushes": 3})],
 "C19": [("C19_Timeline", 90, {"sweeps": 3}), ("C19_Timeline", 100, {"sweeps": 2, "slots": 2}), ("C19_Types", 40, {}), ("C19_Race", 80, {"delays": 2})],
 "C20": [("C20_Env", 50, {}), ("C20_Meta", 100, {"maxip": 2, "maxlist": 5}), ("C20_Text", 30, {"maxtext": 8}), ("C20_Namespace", 30, {}), ("C20_Init", 20, {}), ("C20_InitRace", 60, {})],
}
THOROUGH = {}
LEVEL = "exploration"
NOTE_ALL = "Bounded: every feasible path of the harness within the stated sizes, schedules and faults is decided by the solver; nothing outside the bounds. Trusts the symbolic executor, its stand-ins (protobuf wire format, JSON, regexp, logging) and z3."
NOTE = {}
