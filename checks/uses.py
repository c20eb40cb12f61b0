"""layers a property rests on: their obligations are part of its check"""
import check
EC = ('P12', r'^(big numbers|affine points|projective points|point times scalar|curve constants)')
SHA = ('P20', r'compression|chaining, 256|long messages|interface')
B58 = ('P15', r'Base58')
check.USES.update({
    'P01': [SHA, ('P15', 'integers')],
    'P02': [SHA, ('P15', 'integers')],
    'P03': [SHA, ('P15', 'integers')],
    'P04': [SHA, ('P20', 'HMAC 256'), EC],
    'P05': [EC],
    'P06': [EC],
    'P07': [SHA, EC],
    'P08': [SHA, ('P20', '512|160'), EC],
    'P09': [SHA, B58],
    'P11': [SHA, B58, EC],
    'P13': [SHA, ('P20', '160'), ('P10', 'encoding')],
    'P14': [SHA, ('P20', '160'), B58, ('P16', '')],
    'P15': [SHA],
    'P18': [('P01', ''), ('P02', ''), ('P04', ''), ('P10', 'encoding'), ('P13', 'push')],
    'P19': [SHA, ('P20', '512')],
    'P22': [('P01', ''), ('P02', ''), ('P04', '^sign')],
})
