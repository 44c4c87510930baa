import refs
from props.wet_common import make, ASSUME
R = refs.jms_to_formflavor
HARNESSES = [make('full', 'WET', 'JMS', 'formflavor', R),
             make('partial', 'WET', 'JMS', 'formflavor', R, 'partial'),
             make('defaults', 'WET', 'JMS', 'formflavor', R, 'none')]
ASSUMPTIONS = ASSUME
BOUNDS = ('All JMS coefficients of the basis definition are independent symbolic numbers, the scale is symbolic in '
          '[2.5,180] GeV, the physical parameters are symbolic in boxes around their physical values.')
