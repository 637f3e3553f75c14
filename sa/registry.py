"""property id -> (module under sa.checks, function)"""
CHECKS = {
    'C01': ('boxes', 'check'),
    'C02': ('setops', 'shaped_ops'),
    'C03': ('setops', 'multi_ops'),
    'C04': ('setops', 'shaped_rels'),
    'C05': ('setops', 'multi_rels'),
    'C06': ('setops', 'linear_shaped_meets'),
    'C07': ('setops', 'linear_shaped_rels'),
    'C10': ('setops', 'linear_ops'),
    'C11': ('setops', 'linear_rels'),
    'C12': ('basics', 'contours'),
    'C13': ('basics', 'location'),
    'C14': ('basics', 'bounding_boxes'),
    'C15': ('basics', 'points'),
    'C16': ('basics', 'equality'),
    'C17': ('basics', 'dispatch'),
    'C18': ('basics', 'construction'),
    'C19': ('basics', 'validity'),
    'C08': ('segments', 'ops'),
    'C09': ('segments', 'rels'),
    'C20': ('meshes', 'trapezoidations'),
    'C21': ('meshes', 'delaunay'),
    'C22': ('meshes', 'constrained'),
    'C23': ('surface', 'views'),
    'C24': ('surface', 'holding'),
    'C25': ('surface', 'purity'),
    'C26': ('surface', 'enums'),
    'C27': ('exact', 'invariance'),
}
