import refs
from props.wet_common import make, ASSUME
R = refs.jms_to_bern
HARNESSES = [make('full', 'WET', 'JMS', 'Bern', R),
             make('partial', 'WET', 'JMS', 'Bern', R, 'partial'),
             make('defaults', 'WET', 'JMS', 'Bern', R, 'none'),
             make('full_WET4', 'WET-4', 'JMS', 'Bern', R),
             make('full_WET3', 'WET-3', 'JMS', 'Bern', R)]
ASSUMPTIONS = ASSUME
BOUNDS = ('All JMS coefficients of the basis definition are independent symbolic numbers, the scale is symbolic in '
          '[2.5,180] GeV, the physical parameters are symbolic in boxes around their physical values.')
