CHECKS = {
    'C01': ('c_mem', 'check'),
    'C02': ('c_mem', 'check'),
    'C03': ('share', 'check'),
    'C04': ('share', 'check'),
    'C05': ('parser', 'check'),
    'C06': ('wire', 'check'),
    'C07': ('wire', 'check'),
    'C08': ('fmt', 'check'),
    'C09': ('dump', 'check'),
    'C10': ('conns', 'check'),
    'C11': ('conns', 'check'),
    'C12': ('conns', 'check'),
    'C13': ('conns', 'check'),
    'C14': ('conns', 'check'),
    'C15': ('conns', 'check'),
    'C16': ('conns', 'check'),
    'C17': ('conns', 'check'),
    'C18': ('conns', 'check'),
    'C19': ('loopchk', 'check'),
    'C20': ('loopchk', 'check'),
    'C21': ('loopchk', 'check'),
    'C22': ('loopchk', 'check'),
    'C23': ('loopchk', 'check'),
    'C24': ('wdog', 'check'),
}
