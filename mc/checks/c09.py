from .. import transfers

PROP, LEVEL = 'C09', 'exploration'
TECHNIQUE = 'exhaustive exploration of transfer sizes and segmentation schedules of the real client against a simulated network'
RULE = ('one evaluation per (operation, size, per-request maximum, unit, address, connection mode, segments); distinct ones '
        'are counted by that tuple')
BOUNDS = 'per-request maxima 1..125, sizes to 3*max+1; all compositions of replies up to 13 bytes; <=2 cuts of long ones; the same for requests taken in pieces by the socket'


def families(tier):
    return transfers.families('tcp', tier)
