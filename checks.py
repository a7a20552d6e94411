"""Table of checks: which sources each property's binary is made of."""
C = {}


def add(pid, flavour="asan", groups=("common",), sources=None, extra_flags=(), extra_libs=(),
        quick_cap=240, thorough_cap=700, env=None):
    C[pid] = dict(name=pid, flavour=flavour, groups=list(groups), sources=list(sources or ["props/%s.cc" % pid]),
                  extra_flags=list(extra_flags), extra_libs=list(extra_libs),
                  quick_cap=quick_cap, thorough_cap=thorough_cap, env=env or {})


def add_race(pid, groups=("common",), sources=None, extra_libs=(), env=None):
    """A second program of the same check, built with the thread sanitizer."""
    n = pid + "_race"
    C[pid]["race"] = dict(name=n, flavour="tsan", groups=list(groups), sources=list(sources or ["props/%s.cc" % n]),
                          extra_flags=[], extra_libs=list(extra_libs), env=env or {})


def programs(pid):
    return [C[pid]] + ([C[pid]["race"]] if "race" in C[pid] else [])


DATA = ("data", "pre", "common")
ALL = ("builder", "back_end", "registrators", "descriptor", "data", "pre", "common")
BUILDER = ("builder", "descriptor") + DATA
POINTMATCHER = "shim/icp_pointmatcher_standin.cc"

add("C01", "asan", ("common",))
add("C02", "asan", ("common",))
add("C03", "asan", ("common",))
add("C04", "asan", ("common",))
add("C05", "asan", ("common",))
add("C06", "asan", ("common",))
add("C07", "asan", ("common",))
add("C08", "asan", DATA)
add("C09", "asan", DATA)
add("C10", "asan", DATA)
add("C12", "asan", DATA)
add("C11", "asan", DATA)
add("C13", "asan", DATA)
add_race("C13", DATA)
add("C14", "asan", DATA)
add("C15", "asan", DATA)
add("C16", "asan", DATA)
add("C17", "asan", DATA)
add("C18", "asan", DATA)
add("C19", "asan", DATA)
add("C20", "asan", DATA)
add("C21", "asan", DATA)
add("C45", "asan", DATA)
add("C42", "asan", ("common",))
add("C44", "opt", ("common",), ["props/C44.cc", "shim/tool_join.cc", "shim/tool_path.cc", "shim/tool_sampler.cc"])
add("C49", "opt", ("common",))
add("C46", "asan", ("common",))
add_race("C46", ("common",), ["props/C46.cc"])
add("C22", "asan", DATA)
add_race("C22", DATA)
add("C23", "asan", DATA)
add("C24", "asan", DATA)
add("C25", "asan", DATA)
add("C26", "asan", BUILDER)
add("C27", "asan", BUILDER)
add("C28", "asan", BUILDER)
add("C29", "asan", BUILDER)
add("C50", "asan", BUILDER)
add("C30", "asan", BUILDER)
add_race("C30", BUILDER)
add("C31", "asan", BUILDER)
add("C32", "asan", BUILDER)
add("C33", "asan", ("back_end", "common"))
add("C38", "asan", ("common",))
add_race("C38", ("common",), ["props/C38.cc"])
add("C39", "asan", ("common",))
add_race("C39", ("common",), ["props/C39.cc"])
add("C36", "opt", ("registrators", "back_end", "builder", "descriptor") + DATA, ["props/C36.cc", POINTMATCHER])
add("C37", "asan", ("descriptor",) + DATA)
add("C40", "asan", ALL, ["props/C40.cc", POINTMATCHER])
add("C35", "asan", ALL, ["props/C35.cc", POINTMATCHER])
add("C43", "asan", ("ros",) + DATA)
add("C47", "asan", ("ros_tools", "common"))
add("C48", "asan", ("ros_tools", "common"))
add("C41", "opt", ALL, ["props/C41.cc", POINTMATCHER])
add_race("C41", ALL, ["props/C41.cc", POINTMATCHER], extra_libs=["-lgomp"])
add("C34", "opt", ALL, ["props/C34.cc", POINTMATCHER])
