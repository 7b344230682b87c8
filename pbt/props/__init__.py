"""Which module decides which property, and what the run needs."""
INDEX = {
    "P01": dict(module="geo"),
    "P02": dict(module="geo"),
    "P03": dict(module="otf_parts"),
    "P04": dict(module="otf_parts"),
    "P05": dict(module="otf_parts"),
    "P06": dict(module="otf_parts"),
    "P07": dict(module="otf_parts"),
    "P08": dict(module="otf_parts"),
    "P09": dict(module="otf_parts"),
    "P10": dict(module="otf_parts"),
    "P11": dict(module="otf_parts"),
    "P12": dict(module="system"),
    "P13": dict(module="system"),
    "P14": dict(module="system"),
    "P15": dict(module="system"),
    "P16": dict(module="system"),
    "P17": dict(module="radiometry"),
    "P18": dict(module="radiometry"),
    "P19": dict(module="radiometry"),
    "P20": dict(module="radiometry"),
    "P21": dict(module="radiometry"),
    "P22": dict(module="radiometry"),
    "P23": dict(module="quality"),
    "P24": dict(module="quality"),
    "P25": dict(module="quality"),
    "P26": dict(module="quality"),
    "P27": dict(module="quality", db=True),
    "P28": dict(module="quality", db=True),
    "P29": dict(module="quality", db=True),
    "P30": dict(module="world", db=True),
    "P31": dict(module="world", db=True),
    "P32": dict(module="world", db=True),
    "P33": dict(module="world"),
    "P34": dict(module="simulate"),
    "P35": dict(module="simulate", db=True),
    "P36": dict(module="simulate", db=True),
    "P37": dict(module="simulate"),
    "P38": dict(module="simulate"),
    "P39": dict(module="simulate"),
    "P40": dict(module="simulate", db=True, block_cv2=True),
    "P41": dict(module="simulate", db=True),
    "P42": dict(module="interface", db=True),
    "P43": dict(module="interface", db=True),
    "P44": dict(module="interface", db=True),
    "P45": dict(module="interface", db=True),
}
