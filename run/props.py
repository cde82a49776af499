# Property id -> how its harness is built and run.
PROPS = {
    "C01": {"src": ["c01.cpp"], "units": [], "assumptions": []},
    "C02": {"src": ["c02.cpp"], "units": [], "assumptions": []},
    "C03": {"src": ["c03.cpp"], "units": ["GWRBasic"], "san": True, "assumptions": []},
    "C04": {"src": ["c04.cpp"], "units": ["GWRBasic"], "assumptions": []},
    "C05": {"src": ["c05.cpp"], "assumptions": []},
    "C06": {"src": ["c06.cpp"], "units": ["GWRBasic"], "assumptions": []},
    "C07": {"src": ["c07.cpp"], "assumptions": []},
    "C08": {"src": ["c08.cpp"], "workers": 6, "assumptions": []},
    "C09": {"src": ["c09.cpp"], "workers": 3, "assumptions": []},
    "C10": {"src": ["c10.cpp"], "assumptions": []},
    "C12": {"src": ["c12.cpp"], "assumptions": []},
    "C13": {"src": ["c13.cpp"], "assumptions": []},
    "C14": {"src": ["c14.cpp"], "assumptions": []},
    "C17": {"src": ["c17.cpp"], "assumptions": []},
    "C16": {"src": ["c16.cpp"], "assumptions": []},
    "C15": {"src": ["c15.cpp"], "assumptions": []},
    "C18": {"src": ["c18.cpp"], "assumptions": []},
    "C19": {"src": ["c19.cpp"], "assumptions": []},
    "C20": {"src": ["c20.cpp"], "assumptions": []},
    "C21": {"src": ["c21.cpp"], "assumptions": []},
    "C22": {"src": ["c22.cpp", "work_count.cpp"], "assumptions": []},
    "C23": {"src": ["c23.cpp"], "assumptions": []},
    "C24": {"src": ["c24.cpp"], "assumptions": []},
    "C11": {"src": ["c11.cpp"], "assumptions": []},
    "C26": {"src": ["c26.cpp"], "assumptions": []},
    "C27": {"src": ["c27.cpp"], "assumptions": []},
    "C28": {"src": ["c28.cpp", "gomp_shim.cpp"], "san": "thread", "assumptions": []},
    "C29": {"src": ["c29.cpp"], "assumptions": []},
    "C25": {"src": ["c25.cpp"], "san": True, "assumptions": []},
}
