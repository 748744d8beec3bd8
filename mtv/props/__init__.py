TABLE = {'P28': ('simd', 'p28'), 'P25': ('headers', 'p25'), 'P12': ('owner', 'p12'), "P11": ("effects", "p11"), "P13": ("effects", "p13"), "P14": ("effects", "p14"), "P15": ("effects", "p15"),
    "P23": ("sample", "p23"), 'P20': ('sample', 'p20'), 'P21': ('sample', 'p21'), 'P22': ('sample', 'p22'), 'P27': ('sample', 'p27'),
    'P18': ('linear', 'p18'), 'P19': ('linear', 'p19'), 'P17': ('mt', 'p17'), 'P16': ('util', 'p16'), 'P10': ('parity', 'run'), 'P08': ('temper', 'run'), 
    'P01': ('search', 'p01'),
    'P02': ('search', 'p02'),
    'P03': ('period', 'p03'),
    'P04': ('period', 'p04'),
    'P05': ('poly', 'p05'),
    'P06': ('equi', 'p06'),
    'P07': ('equi', 'p07'),
    'P09': ('twostage', 'run'),
}
