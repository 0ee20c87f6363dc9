"""property id -> model-checking configurations and conformance drivers"""
GROUP_MC = [
    {"module": "GroupMC", "cfg": "GroupMC.cfg"},
    {"module": "GroupMC", "cfg": "GroupMC_deep.cfg", "tier": "thorough", "heap": "6g"},
]
CAT_MC = [{"module": "CatMC", "cfg": "CatMC.cfg"}, {"module": "CatMC", "cfg": "CatMC_deep.cfg", "tier": "thorough", "heap": "8g", "timeout": 700}]
PROPS = {
    "C01": {
        "mc": [
            {"module": "ContainerMC", "cfg": "ContainerMC.cfg"},
            {"module": "ContainerMC", "cfg": "ContainerMC_deep.cfg", "tier": "thorough", "heap": "8g", "timeout": 700},
            {"module": "ContainerMC", "cfg": "ContainerMC_gen.cfg", "behaviours": "c01"},
        ],
        "drivers": [{"name": "c01", "module": "T_Container"}],
    },
    "C09": {
        "mc": GROUP_MC,
        "drivers": [{"name": "c09", "module": "T_Group"}],
    },
    "C10": {
        "mc": GROUP_MC,
        "drivers": [{"name": "c10", "module": "T_Group"}],
    },
    "C11": {
        "mc": GROUP_MC,
        "drivers": [{"name": "c11", "module": "T_Group"}],
    },
    "C12": {
        "mc": [{"module": "JoinMC", "cfg": "JoinMC.cfg"}, {"module": "JoinMC", "cfg": "JoinMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c12", "module": "T_Join"}],
    },
    "C03": {
        "mc": [{"module": "ColumnMC", "cfg": "ColumnMC.cfg"}, {"module": "ColumnMC", "cfg": "ColumnMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c03", "module": "T_Column"}],
    },
    "C18": {
        "mc": [{"module": "StatMC", "cfg": "StatMC.cfg"}, {"module": "StatMC", "cfg": "StatMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c18", "module": "T_Stat"}],
    },
    "C19": {
        "mc": [{"module": "BinMC", "cfg": "BinMC.cfg"}, {"module": "BinMC", "cfg": "BinMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c19", "module": "T_Bin"}],
    },
    "C05": {
        "mc": [{"module": "StackMC", "cfg": "StackMC.cfg"}, {"module": "StackMC", "cfg": "StackMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c05", "module": "T_Stack"}],
    },
    "C21": {
        "mc": [{"module": "AccumMC", "cfg": "AccumMC.cfg"}, {"module": "AccumMC", "cfg": "AccumMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c21", "module": "T_Accum"}],
    },
    "C22": {
        "mc": [{"module": "ExchangeMC", "cfg": "ExchangeMC.cfg"}, {"module": "ExchangeMC", "cfg": "ExchangeMC_for.cfg"},
               {"module": "ExchangeMC", "cfg": "ExchangeMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c22", "module": "T_Exchange"}],
    },
    "C23": {
        "mc": [{"module": "ReshapeMC", "cfg": "ReshapeMC.cfg"}, {"module": "ReshapeMC", "cfg": "ReshapeMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c23", "module": "T_Reshape"}],
    },
    "C20": {
        "mc": [{"module": "StrMC", "cfg": "StrMC.cfg"}, {"module": "StrMC", "cfg": "StrMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c20", "module": "T_Str"}],
    },
    "C13": {
        "mc": [{"module": "AsofMC", "cfg": "AsofMC.cfg"}, {"module": "AsofMC", "cfg": "AsofMC_uns.cfg"},
               {"module": "AsofMC", "cfg": "AsofMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c13", "module": "T_Asof"}],
    },
    "C15": {
        "mc": [{"module": "StoreMC", "cfg": "StoreMC.cfg"}, {"module": "StoreMC", "cfg": "StoreMC_deep.cfg", "tier": "thorough", "heap": "8g", "timeout": 700}],
        "drivers": [{"name": "c15", "module": "T_Store"}],
    },
    "C06": {"mc": CAT_MC, "drivers": [{"name": "c06", "module": "T_Cat"}]},
    "C07": {"mc": CAT_MC, "drivers": [{"name": "c07", "module": "T_Cat"}]},
    "C08": {"mc": CAT_MC, "drivers": [{"name": "c08", "module": "T_Cat"}]},
    "C14": {
        "mc": [{"module": "UniqMC", "cfg": "UniqMC.cfg"}, {"module": "UniqMC", "cfg": "UniqMC2.cfg"},
               {"module": "UniqMC", "cfg": "UniqMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700},
               {"module": "UniqMC", "cfg": "UniqMC2_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c14", "module": "T_Uniq"}],
    },
    "C02": {
        "mc": [{"module": "CellsMC", "cfg": "CellsMC.cfg"}, {"module": "CellsMC", "cfg": "CellsMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c02", "module": "T_Cells"}],
    },
    "C04": {
        "mc": [{"module": "SortMC", "cfg": "SortMC.cfg"}, {"module": "SortMC", "cfg": "SortMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c04", "module": "T_Sort"}],
    },
    "C16": {
        "mc": [{"module": "CalMC", "cfg": "CalMC.cfg"}, {"module": "CalMC", "cfg": "CalMC_deep.cfg", "tier": "thorough", "heap": "6g", "timeout": 700}],
        "drivers": [{"name": "c16", "module": "T_Cal"}],
    },
    "C17": {
        "mc": [{"module": "SpanMC", "cfg": "SpanMC.cfg"}, {"module": "SpanMC", "cfg": "SpanMC_deep.cfg", "tier": "thorough", "heap": "8g", "timeout": 700}],
        "drivers": [{"name": "c17", "module": "T_Span"}],
    },
}
