"""What each check claims (also the source of MANIFEST.json)."""

MC = 'model_checking'
EX = 'exploration'

NUM = ('real-number arithmetic of the specification is IEEE double precision (java/F64.java, tested against TLC '
       'integers by the self-test); comparisons allow for the single precision of the code')
TRACE = ('what is explored is public calls made by a recording driver; each recorded outcome is judged by TLC against '
         'the specification (Trace.tla)')
SMALL = 'the session model is checked exhaustively for two spectrum sets, two fitters, two responses and one file path'
COSMO = 'the distance modulus of a redshift is astropy\'s for the cosmology passed'
REF = 'the reference spectra are those of the packaged Basel files'
POSIX = 'files are written and read on a local file system without faults'

META = {
    'C01': (EX, 'trace validation against a TLA+ specification (Photometry) of projection', [NUM, TRACE]),
    'C02': (MC, 'TLC model of the session; generated histories replayed and their traces validated', [SMALL, NUM, TRACE]),
    'C03': (MC, 'TLC model of matrix construction; generated histories replayed and their traces validated',
            [SMALL, NUM, TRACE]),
    'C04': (EX, 'trace validation against optimality conditions in TLA+ (their equivalence to the minimum checked by TLC)',
            [NUM, TRACE]),
    'C05': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C06': (EX, 'trace validation of batch, permuted and single calls against the TLA+ specification', [NUM, TRACE]),
    'C07': (EX, 'TLC-enumerated malformed calls replayed; traces validated against the TLA+ specification', [TRACE]),
    'C08': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C09': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C10': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE, COSMO]),
    'C11': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE, COSMO]),
    'C12': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification',
            [NUM, TRACE, COSMO, REF]),
    'C13': (EX, 'trace validation of Monte Carlo fits and statistics of draws against the TLA+ specification',
            [NUM, TRACE, 'moments of the draws are tested to six standard errors']),
    'C14': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE, COSMO, REF]),
    'C15': (MC, 'TLC model of saving and restoring; generated histories replayed and their traces validated',
            [SMALL, NUM, TRACE, POSIX]),
    'C16': (MC, 'TLC model of saving and restoring; generated histories replayed and their traces validated',
            [SMALL, NUM, TRACE, POSIX]),
    'C17': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE, REF]),
    'C18': (MC, 'TLC model of the registry; all short histories replayed and their traces validated',
            [SMALL, TRACE, POSIX]),
    'C19': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C20': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C21': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C22': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C23': (MC, 'TLC model of the session (answers never change); random histories replayed and their traces validated',
            [SMALL, NUM, TRACE]),
    'C24': (MC, 'TLC model of output bands and mapping; TLC-enumerated configurations replayed, traces validated',
            [SMALL, NUM, TRACE]),
    'C25': (EX, 'trace validation against a TLA+ specification of the file format', [TRACE]),
    'C26': (EX, 'TLC-enumerated cases replayed; traces validated against the TLA+ specification', [NUM, TRACE]),
    'C27': (MC, 'TLC model of plain fitters; generated histories replayed and their traces validated', [SMALL, NUM, TRACE]),
    'C28': (MC, 'TLC model of bandpass objects and their files; generated histories replayed, traces validated',
            [SMALL, NUM, TRACE, REF, POSIX]),
    'C29': (EX, 'trace validation of whole analyses, and of relations between them, against the TLA+ specification',
            [NUM, TRACE, COSMO]),
    'C30': (EX, 'trace validation of default objects against the documented defaults in the TLA+ specification', [NUM, TRACE]),
}
META = {k: dict(level=v[0], technique=v[1], assumptions=v[2]) for k, v in META.items()}
