import refs
from props.wet_common import make, ASSUME
R = refs.jms_to_eos
HARNESSES = [make('full', 'WET', 'JMS', 'EOS', R),
             make('partial', 'WET', 'JMS', 'EOS', R, 'partial'),
             make('defaults', 'WET', 'JMS', 'EOS', R, 'none')]
ASSUMPTIONS = ASSUME
BOUNDS = ('All JMS coefficients of the basis definition are independent symbolic numbers, the scale is symbolic in '
          '[2.5,180] GeV, the physical parameters are symbolic in boxes around their physical values.')
