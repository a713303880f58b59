# levels and bounded stand-ins per property (read by check.py and tools/manifest.py)
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20']
BOUNDED = {
    'C04': 'scheme-level round trips run on random messages and party sets for the time budget',
    'C05': 'products run end to end on random operands (parties, levels, scales) for the time budget',
    'C07': 'rotations run end to end on random operands and amounts for the time budget',
    'C12': 'that the floating-point floor in the digit reconstruction is the exact one (the reconstruction itself and its tables are proved) runs on random elements, levels and bases for the time budget',
    'C13': 'that the floating-point floor in the basis extension is the exact one (the extension itself and its tables are proved) runs on random elements, levels and bases for the time budget',
    'C17': 'the BFV parameters run on random parameter sets for the time budget',
}
NOTE = {}
LEVEL = {}
WHY_NOT = {}
