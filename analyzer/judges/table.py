JUDGES = {
    "P01": ("safety", "p01"),
    "P02": ("safety", "p02"),
    "P03": ("safety", "p03"),
    "P04": ("paths", "p04"),
    "P05": ("paths", "p05"),
    "P06": ("paths", "p06"),
    "P07": ("paths", "p07"),
    "P08": ("paths", "p08"),
    "P11": ("paths", "p11"),
    "P24": ("paths", "p24"),
    "P09": ("wiring", "p09"),
    "P10": ("wiring", "p10"),
    "P12": ("signatures", "p12"),
    "P13": ("signatures", "p13"),
    "P14": ("signatures", "p14"),
    "P15": ("wiring", "p15"),
    "P16": ("containers", "p16"),
    "P17": ("containers", "p17"),
    "P18": ("containers", "p18"),
    "P19": ("containers", "p19"),
    "P20": ("containers", "p20"),
    "P21": ("containers", "p21"),
    "P22": ("wiring", "p22"),
    "P23": ("wiring", "p23"),
    "P25": ("values", "p25"),
    "P26": ("values", "p26"),
}
