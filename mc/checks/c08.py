from .. import rig, transfers
from ..core import Family, Obs, eq
from ..wire import crc16

PROP, LEVEL = 'C08', 'exploration'
TECHNIQUE = 'exhaustive exploration of transfer sizes and arrival schedules of the real client against a simulated serial line'
RULE = ('one evaluation per (operation, size, per-request maximum, unit, address, arrival pieces) or CRC message; distinct '
        'ones are counted by that tuple')
BOUNDS = 'per-request maxima 1..125, sizes to 3*max+1; all compositions of replies up to 9 (quick) or 13 bytes; <=2 cuts of long ones'


def families(tier):
    def crc_cases():
        for b in range(256):
            yield [1, b]
        for b in range(256):
            yield [2, b]
        for n in range(3, 10):
            for i in range(n):
                yield [n, i, 0]
                yield [n, i, 255]
        yield [0]
        yield [260]
        if tier == 'thorough':
            for b in range(256):
                yield [3, b, 'all']

    def crc_run(c):
        if c[0] == 0:
            msgs = [b'']
        elif c[0] == 1:
            msgs = [bytes([c[1]])]
        elif c[0] == 2:
            msgs = [bytes([c[1], x]) for x in range(256)]
        elif c[0] == 260:
            msgs = [bytes((i * k) & 255 for i in range(n)) for n in (10, 64, 128, 255, 256, 260) for k in (1, 3, 7, 255)]
        elif c[0] == 3 and c[2] == 'all':
            msgs = [bytes([c[1], x, y]) for x in range(256) for y in range(256)]
        else:
            msgs = [bytes([c[2]]) * c[1] + bytes([x]) + bytes([c[2] ^ 0x5A]) * (c[0] - c[1] - 1) for x in range(256)]
        for m in msgs:
            want = int.from_bytes(crc16(m), 'big')
            eq('computeCRC(%s)' % m.hex(), rig.modbus.computeCRC(m), want)
            if c[0] <= 2:
                s = m.decode('latin-1')
                eq('computeCRC(str)', rig.modbus.computeCRC(s), want)
                eq('checkCRC accepts', bool(rig.modbus.checkCRC(s, want)), True)
                for bit in range(16):
                    eq('checkCRC refuses', bool(rig.modbus.checkCRC(s, want ^ (1 << bit))), False)
        return Obs(steps=len(msgs), execs=len(msgs), outcomes=[(m.hex()) for m in msgs] if len(msgs) < 3000 else [c])

    return [Family('crc', crc_cases, crc_run, what='CRC of messages against a bit-by-bit implementation',
                   bound='all messages of 0..2 bytes (3 in the thorough tier), one varying byte in messages up to 9 bytes')
            ] + transfers.families('rtu', tier)
