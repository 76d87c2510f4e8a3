"""Checks: property -> tasks"""
import os
from .build import VERIF
from .check import Task

SPECS = {}

SPECS['C06'] = [
    Task('c06.cpp', 'default', reach=['density', 'kept density', 'reach:filled', 'reach:dense'],
         bound='3 particles of every type, positions anywhere in one grid cell (1.75 x 1.75), r_e = 1.5 l_0'),
]

SPECS['C01'] = [
    Task('c01.cpp', 'default', 'pair', reach=['neighbour list', 'reach:near', 'reach:far', 'reach:disabled'], flags=['-DSCEN=0'],
         bound='2 particles anywhere inside and around a box of 3x1 cells (offset origin), second of every type, after a stale search'),
    Task('c01.cpp', 'default', 'triple', reach=['neighbour list', 'reach:near', 'reach:far'], flags=['-DSCEN=1'],
         bound='3 particles in an area of 2x2 cells'),
    Task('c01.cpp', 'default', 'crowd', reach=['neighbour list', 'reach:near', 'reach:far'], flags=['-DSCEN=3'],
         bound='36 particles that fill 3x3 cells to capacity, the last anywhere on two lines through the middle cell'),
    Task('c01.cpp', 'default', 'radius', reach=['search radius'], flags=['-DSCEN=2'],
         bound='symbolic spacing, Courant number in (0,1], influence ratios 1, 1.5, 2.5, 3.125, 4'),
    Task('c01.cpp', 'dim3', 'pair3d', reach=['neighbour list', 'reach:near', 'reach:far'], flags=['-DSCEN=0'],
         bound='as pair, in 3D with one cell in depth'),
]
SPECS['C09'] = [
    Task('c09.cpp', 'default', 'triple', reach=['velocity', 'reach:viscous'], flags=['-DFEW'], tiers=('quick',),
         bound='3 particles, first fluid, second of every type, third fluid or dummy, one cell'),
    Task('c09.cpp', 'default', 'triples', reach=['velocity', 'reach:viscous'], tiers=('thorough',), bound='3 particles, first fluid, others of every type, one cell'),
    Task('c09.cpp', 'std', reach=['velocity', 'reach:viscous'], flags=['-DNP=2'], bound='2 particles, standard Laplacian'),
    Task('c09.cpp', 'default', 'block', reach=['velocity', 'reach:viscous'], flags=['-DBLOCK', '-DRE=2.25', '-DBSPACE=0.9375'],
         bound='18 particles: fluid over walls and dummies, any velocities'),
    Task('c09.cpp', 'std', 'blockstd', reach=['velocity', 'reach:viscous'], flags=['-DBLOCK', '-DRE=2.25', '-DBSPACE=0.9375'], bound='the same, standard Laplacian'),
    Task('c09.cpp', 'dim3', reach=['velocity', 'reach:viscous'], flags=['-DNP=2'], bound='2 particles, 3D'),
]

SPECS['C02'] = [
    Task('c02.cpp', 'default', 'single', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=0'],
         bound='1 live particle of every type, 2 steps, any position within 11 on either axis of an offset box'),
    Task('c02.cpp', 'default', 'special', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=1'],
         bound='2 steps at exact bounds, huge, infinite and NaN positions'),
    Task('c02.cpp', 'default', 'two', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=2', '-DRANGE=6'],
         bound='a fluid particle and one of every type, 2 steps, within 6 on either axis'),
    Task('c02.cpp', 'default', 'moving', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=3', '-DRANGE=48'],
         bound='3 neighbouring particles, one of any type (disabled too) at any index moving at any speed from 8 to 48 per time unit on either axis (2 to 12 a step), 3 steps'),
    Task('c02.cpp', 'nosppgc', 'movingsurface', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=3', '-DRANGE=48'], tiers=('thorough',),
         bound='the same with free-surface detection and gradient correction'),
    Task('c02.cpp', 'explicitp', 'movingexplicit', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=3', '-DRANGE=48'], tiers=('thorough',),
         bound='the same, weakly compressible variant'),
    Task('c02.cpp', 'dim3', 'single3d', reach=['inside stays live', 'outside is disabled', 'disabled for good'], flags=['-DSCEN=0'],
         bound='as single, in 3D'),
]
SPECS['C03'] = [
    Task('c03.cpp', 'default', 'dense', reach=['position', 'reach:compared'], flags=['-DNP=3', '-DDENSE', '-DSTEPS=1', '-DEPS=1000'],
         bound='3 live particles in 3 close layouts and 1 disabled at any index with any state, one step with a pressure system'),
    Task('c03.cpp', 'default', 'steps', reach=['position', 'reach:compared'], flags=['-DNP=3', '-DDENSE', '-DSTEPS=2', '-DEPS=1000'],
         bound='the same, 2 steps'),
    Task('c03.cpp', 'explicitp', 'explicit', reach=['position', 'reach:compared'], flags=['-DNP=3', '-DDENSE', '-DSTEPS=2', '-DEPS=1000'],
         bound='the same, 2 steps, weakly compressible variant'),
    Task('c03.cpp', 'nosppgc', 'surface', reach=['position', 'reach:compared'], flags=['-DNP=3', '-DDENSE', '-DSTEPS=2', '-DEPS=1000'],
         bound='the same, 2 steps, free-surface detection and gradient correction'),
    Task('c03.cpp', 'default', 'full', reach=['failure', 'neighbours', 'reach:failed', 'reach:compared'], flags=['-DFULL', '-DEPS=1000'],
         bound='a cell filled to one below, at and one above its capacity, with a disabled particle anywhere in it'),
    Task('c03.cpp', 'default', 'history', reach=['position', 'reach:compared'], flags=['-DHIST', '-DEPS=1000'],
         bound='a wall led out of the domain on either side and back, 3 particles, 3 steps, against a computation without it'),
    Task('c03.cpp', 'nospp', 'historysurface', reach=['position', 'reach:compared'], flags=['-DHIST', '-DEPS=1000'],
         bound='the same with free-surface detection'),
]
SPECS['C04'] = [
    Task('c04.cpp', 'default', 'point', reach=['stored iff inside', 'found from the other', 'reach:adjacent', 'reach:apart', 'forgotten'],
         flags=['-DSCEN=0', '-DL0=1', '-DSX=1.25', '-DSY=1', '-DSZ=2'], bound='2D grid of 3x4 cells, 2 particles anywhere in and around'),
    Task('c04.cpp', 'default', 'capacity', reach=['advertised capacity', 'accepts its capacity', 'refuses more with an error', 'all found', 'all found after a refusal'],
         flags=['-DSCEN=1', '-DL0=1', '-DSX=1.25', '-DSY=1', '-DSZ=2'], bound='every cell of a 3x4 grid filled to its capacity of 9 and beyond, twice'),
    Task('c04.cpp', 'default', 'several', reach=['search', 'cleared'],
         flags=['-DSCEN=2', '-DL0=1', '-DSX=4', '-DSY=1', '-DSZ=2'], bound='4 particles in a 5x4 grid'),
    Task('c04.cpp', 'dim3', 'capacity3d', reach=['advertised capacity', 'accepts its capacity', 'refuses more with an error', 'all found', 'all found after a refusal'],
         flags=['-DSCEN=1', '-DL0=2', '-DSX=2', '-DSY=1', '-DSZ=1.25'], bound='3D grid of 4x3x3 cells, capacity 8 and beyond'),
    Task('c04.cpp', 'dim3', 'several3d', reach=['search', 'cleared'],
         flags=['-DSCEN=2', '-DL0=2', '-DSX=4', '-DSY=1', '-DSZ=2'], bound='4 particles in a 3D grid of 5x3x4 cells'),
]
R10 = ['prescribed position', 'velocity from the displacement', 'preparation once', 'reach:wall']
SPECS['C10'] = [
    Task('c10.cpp', 'default', 'mixed', reach=R10, flags=['-DSCEN=0'],
         bound='fluid, wall and dummy from a fixed start, both orders, 1 step, prescribed positions and step symbolic'),
    Task('c10.cpp', 'default', 'steps', reach=R10, flags=['-DSCEN=1'],
         bound='2 walls or dummies in any state, 2 steps, prescribed positions and steps symbolic'),
    Task('c10.cpp', 'explicitp', 'close', reach=R10, flags=['-DSCEN=2'],
         bound='fluid and wall or dummy, 1 step to any positions in one cell, weakly compressible variant'),
    Task('c10.cpp', 'default', 'nowall', reach=['preparation once', 'time'], flags=['-DSCEN=3'], bound='no wall: 0 to 2 fluid or disabled particles, 2 steps, steps symbolic'),
    Task('c10.cpp', 'dim3', 'steps3d', reach=R10, flags=['-DSCEN=1'], bound='as steps, in 3D'),
]

SPECS['C12'] = [
    Task('c12.cpp', 'default', 'layouts', reach=['source', 'common velocity', 'reach:dense'], flags=['-DSCEN=0'],
         bound='3 particles (first fluid, others of every type) at 3 pairs of positions before/after the first stage, any velocities, density, step'),
    Task('c12.cpp', 'default', 'pair', reach=['source', 'common velocity', 'reach:dense', 'reach:approaching'], flags=['-DSCEN=1'],
         bound='2 particles anywhere within half a spacing before and after the first stage'),
    Task('c12.cpp', 'std', 'standard', reach=['source'], flags=['-DSCEN=0'], bound='as layouts, standard source, free-surface condition'),
    Task('c12.cpp', 'nospp', 'nospp', reach=['source', 'common velocity'], flags=['-DSCEN=0'], bound='as layouts, without virtual surface particles'),
]

R13 = ['coefficient', 'initial guess', 'reach:coupled', 'coefficient after a change', 'coefficient after another change']
SPECS['C13'] = [
    Task('c13.cpp', 'default', 'layouts', reach=R13 + ['reach:virtual particle'], flags=['-DSCEN=0'],
         bound='3 then 4 particles (first fluid, two of every type) in 3 layouts, assembled three times with changes in between'),
    Task('c13.cpp', 'default', 'pair', reach=['coefficient', 'initial guess', 'reach:coupled', 'reach:virtual particle'], flags=['-DSCEN=1'],
         bound='2 particles anywhere in one cell'),
    Task('c13.cpp', 'std', 'standard', reach=R13, flags=['-DSCEN=0'], bound='as layouts, standard Laplacian and free-surface condition'),
    Task('c13.cpp', 'nospp', 'nospp', reach=R13, flags=['-DSCEN=0'], bound='as layouts, without virtual surface particles'),
    Task('c13.cpp', 'nohl', 'nohl', reach=['coefficient', 'reach:virtual particle'], flags=['-DSCEN=1'], bound='as pair, standard Laplacian with virtual particles'),
    Task('c13.cpp', 'dim3', 'pair3d', reach=['coefficient', 'initial guess', 'reach:coupled', 'reach:virtual particle'], flags=['-DSCEN=1'],
         bound='as pair, in 3D (in one plane)'),
]

SPECS['C05'] = [
    Task('c05.cpp', 'default', 'weight', reach=['finite', 'never negative', 'inverse law', 'zero outside', 'never increases with distance'], flags=['-DSCEN=0'],
         bound='distances in [-1000, 1000], +-0, +-infinity, radii in (0, 1000], a second distance'),
    Task('c05fp.cpp', 'default', 'weight-bits', mode='fp', secs=120, reach=['weight is a number', 'weight never negative', 'weight zero outside'],
         bound='bit-precise IEEE doubles: every distance (also infinite, not NaN), every finite positive radius'),
    Task('c05.cpp', 'default', 'lattice', reach=['reference density', 'reach:beyond the diagonal'], flags=['-DSCEN=1', '-DMAXRATIO=4.3', '-DSPACINGS=3'],
         bound='every influence ratio in [1, 4.3], spacings 1, 1/128, 3, 0.1'),
    Task('c05.cpp', 'std', 'diffusion', reach=['reference density', 'diffusion constant', 'reach:beyond the diagonal'], flags=['-DSCEN=1', '-DMAXRATIO=4.3', '-DSPACINGS=3'],
         bound='the same with the diffusion constant'),
    Task('c05.cpp', 'dim3', 'lattice3d', reach=['reference density', 'reach:beyond the diagonal'], flags=['-DSCEN=1', '-DMAXRATIO=2.3', '-DSPACINGS=2'],
         bound='3D, every influence ratio in [1, 2.3], spacings 1, 1/128, 3'),
    Task('c05.cpp', 'dim3std', 'diffusion3d', reach=['reference density', 'diffusion constant', 'reach:beyond the diagonal'], flags=['-DSCEN=1', '-DMAXRATIO=2.3', '-DSPACINGS=2'],
         bound='the same with the diffusion constant'),
]

SPECS['C07'] = [
    Task('c07.cpp', 'default', 'caps', reach=['positive cap', 'no shorter than needed', 'reach:limited'], flags=['-DSCEN=1'],
         bound='requested maximum in (0,10], Courant number in (0,1], spacing in (0,10], gravity in (0,100]'),
    Task('c07.cpp', 'explicitp', 'soundcap', reach=['positive cap', 'no shorter than needed', 'reach:limited'], flags=['-DSCEN=1'],
         bound='the same with sound speeds in (0,100]'),
    Task('c07.cpp', 'default', 'single', reach=['nobody travels too far', 'largest such step', 'reach:limited by speed'], flags=['-DSCEN=0', '-DNP=1'],
         bound='1 particle of every type, any velocity up to 4 per axis, 2 steps'),
    Task('c07.cpp', 'default', 'two', reach=['nobody travels too far', 'largest such step', 'reach:limited by speed'], flags=['-DSCEN=0', '-DNP=2'],
         bound='2 particles of every type, any velocities, 1 step'),
    Task('c07.cpp', 'explicitp', 'three', reach=['nobody travels too far', 'largest such step', 'reach:limited by speed'], flags=['-DSCEN=0', '-DNP=3'],
         bound='3 particles of every type, any velocities, 1 step, weakly compressible variant'),
    Task('c07.cpp', 'default', 'wide', reach=['nobody travels too far', 'largest such step', 'reach:limited by speed'], flags=['-DSCEN=3'],
         bound='2 particles of every type, any velocity up to 200 per axis, caps of 0.001, 3 and 8'),
    Task('c07.cpp', 'explicitp', 'widesound', reach=['nobody travels too far', 'largest such step', 'reach:limited by speed'], flags=['-DSCEN=3'],
         bound='the same, weakly compressible variant'),
    Task('c07.cpp', 'default', 'many', reach=['nobody travels too far', 'largest such step', 'time', 'reach:limited by speed'], flags=['-DSCEN=4'],
         bound='5 fluid particles, one at any index at any vertical speed up to 40, at the start or after a step given as 4'),
    Task('c07.cpp', 'explicitp', 'empty', reach=['nobody to limit the step'], flags=['-DSCEN=2'], bound='empty particle list, 2 steps'),
]

R11 = ['no net momentum', 'only damps', 'common velocity', 'nothing from a dummy', 'reach:interaction', 'reach:dummy', 'reach:wall']
SPECS['C11'] = [
    Task('c11.cpp', 'default', 'pair', reach=R11 + ['relative motion slows'], flags=['-DSCEN=0'],
         bound='2 particles (fluid, then fluid, wall or dummy) anywhere in one cell, any velocities, viscosity and common velocity'),
    Task('c11.cpp', 'std', 'pairstd', reach=R11 + ['relative motion slows'], flags=['-DSCEN=0'], bound='as pair, standard Laplacian'),
    Task('c11.cpp', 'dim3', 'pair3d', reach=R11 + ['relative motion slows'], flags=['-DSCEN=0'], bound='as pair, in 3D'),
    Task('c11.cpp', 'default', 'triple', reach=R11, flags=['-DSCEN=1'], bound='3 particles (two fluid, then fluid, wall or dummy) in 3 layouts, any velocities, viscosity and common velocity'),
    Task('c11.cpp', 'std', 'triplestd', reach=R11, flags=['-DSCEN=1'], bound='as triple, standard Laplacian'),
]

SPECS['C14'] = [
    Task('c14.cpp', 'default', 'one', reach=['converged', 'reach:solved', 'reach:error', 'reach:solved by the guess'], flags=['-DSCEN=0', '-DNP=1'],
         bound='1 unknown, every coefficient, right-hand side, guess and tolerance'),
    Task('c14.cpp', 'default', 'anymatrix', reach=['converged', 'reach:solved', 'reach:error'], flags=['-DSCEN=0', '-DNP=2', '-DSYM=1'], cfg=dict(timeout=4000, br_timeout=800),
         bound='2 unknowns, every matrix with entries in [-4,4], right-hand side (1,0), guess 0, tolerance 1/2'),
    Task('c14.cpp', 'default', 'anyrhs', reach=['converged', 'reach:solved', 'reach:error'], flags=['-DSCEN=0', '-DNP=2', '-DSYM=2', '-DANY=0'], cfg=dict(timeout=4000, br_timeout=800),
         bound='2 unknowns, 6 matrices (definite, singular, indefinite, non-symmetric), any first right-hand side'),
    Task('c14.cpp', 'default', 'anyguess', reach=['converged', 'reach:solved', 'reach:error'], flags=['-DSCEN=0', '-DNP=2', '-DSYM=2', '-DANY=3', '-DEPS=0.0009765625'], cfg=dict(timeout=4000, br_timeout=800),
         bound='2 unknowns, 6 matrices, any second guess'),
    Task('c14.cpp', 'default', 'three', reach=['converged', 'reach:solved'], flags=['-DSCEN=1', '-DNP=3', '-DDLO=-1'], cfg=dict(timeout=4000, br_timeout=800),
         bound='3 unknowns, 32 symmetric matrices, 2 right-hand sides and guesses, any tolerance in (0,1]'),
    Task('c14.cpp', 'novcl', 'three-ublas', reach=['converged', 'reach:solved'], flags=['-DSCEN=1', '-DNP=3', '-DDLO=-1', '-DBOOST_UBLAS_NDEBUG'], cfg=dict(timeout=4000, br_timeout=800),
         bound='as three, without ViennaCL'),
    Task('c14.cpp', 'default', 'special', reach=['no normal return from bad data', 'reach:error'], flags=['-DSCEN=2', '-DNP=2'],
         bound='2 unknowns, NaN or infinity in the matrix, right-hand side or guess'),
]

SPECS['C15'] = [
    Task('c15.cpp', 'default', 'solved', reach=['solved pressure, clipped', 'pressure kept', 'reach:negative', 'reach:positive'], flags=['-DSCEN=0'],
         bound='4 particles (fluid, fluid or wall, any, dummy or disabled) in 3 layouts, 5 horizontal velocities of one'),
    Task('c15.cpp', 'default', 'anysolution', reach=['solved pressure, clipped', 'pressure kept', 'reach:negative', 'reach:positive'], flags=['-DSCEN=2'],
         bound='3 particles of every type far apart, any solution vector in [-10,10]'),
    Task('c15.cpp', 'nospp', 'anysolution-nospp', reach=['solved pressure, clipped', 'pressure kept', 'reach:negative', 'reach:positive'], flags=['-DSCEN=2'],
         bound='the same without virtual particles'),
    Task('c15.cpp', 'nospp', 'relaxed', reach=['solved pressure, clipped', 'reach:negative', 'reach:positive'], flags=['-DSCEN=3'],
         bound='a resting pair of fluid or wall particles with any pressures in [-10,10]'),
    Task('c15.cpp', 'nospp', 'surface', reach=['solved pressure, clipped', 'pressure kept', 'reach:negative', 'reach:positive', 'reach:surface'], flags=['-DSCEN=0'],
         bound='the same with free-surface detection'),
    Task('c15.cpp', 'explicitp', 'state', reach=['equation of state', 'reach:compressed', 'reach:not compressed'], flags=['-DSCEN=1'],
         bound='2 particles anywhere in one cell, any sound speed and density'),
]
R16 = ['velocity', 'position', 'others do not move', 'reach:interaction']
SPECS['C16'] = [
    Task('c16.cpp', 'default', 'pair', reach=R16 + ['equal and opposite', 'along the line', 'pushed apart', 'strictly pushed apart', 'reach:virtual particle'], flags=['-DSCEN=0'],
         bound='fluid and a particle of every type anywhere in one cell'),
    Task('c16.cpp', 'nospp', 'pairnospp', reach=R16 + ['equal and opposite', 'along the line', 'pushed apart', 'strictly pushed apart'], flags=['-DSCEN=0'],
         bound='the same without virtual particles'),
    Task('c16.cpp', 'dim3', 'pair3d', reach=R16 + ['reach:virtual particle'], flags=['-DSCEN=0'], bound='the same in 3D'),
    Task('c16.cpp', 'default', 'layouts', reach=R16 + ['reach:virtual particle'], flags=['-DSCEN=1'],
         bound='4 particles of many type combinations in 3 layouts, any pressures, velocities and densities'),
    Task('c16.cpp', 'gc', 'corrected', reach=R16 + ['reach:virtual particle'], flags=['-DSCEN=1'], bound='as layouts (everybody with enough neighbours), with gradient correction'),
    Task('c16.cpp', 'dim3gc', 'corrected3d', reach=R16 + ['reach:virtual particle'], flags=['-DSCEN=1'], bound='the same in 3D'),
]

SPECS['C17'] = [
    Task('c17.cpp', 'gc', 'inverse', reach=['left inverse', 'right inverse', 'multiple of the identity', 'reach:singular', 'reach:regular'], flags=['-DSCEN=0'],
         bound='every 2x2 matrix with entries in [-8,8]'),
    Task('c17.cpp', 'dim3gc', 'inverse3d', reach=['left inverse', 'right inverse', 'multiple of the identity', 'reach:singular', 'reach:regular'], flags=['-DSCEN=0'],
         bound='every 3x3 matrix with entries in [-8,8]'),
    Task('c16.cpp', 'gc', 'corrected', reach=R16 + ['reach:virtual particle'], flags=['-DSCEN=1'], bound='the correction of 4 particles in 3 layouts'),
    Task('c16.cpp', 'dim3gc', 'corrected3d', reach=R16 + ['reach:virtual particle'], flags=['-DSCEN=1'], bound='the same in 3D'),
]
R18 = ['repulsion', 'position', 'finite', 'others do not move', 'reach:too close', 'reach:far enough']
SPECS['C18'] = [
    Task('c18.cpp', 'default', 'pair', reach=R18 + ['equal and opposite', 'separation never shrinks', 'pushed away from the wall'], flags=['-DSCEN=0'],
         bound='fluid and a particle of every type, 5 relative positions before the correction, any positions in one cell after it'),
    Task('c18.cpp', 'dim3', 'pair3d', reach=R18 + ['equal and opposite', 'separation never shrinks', 'pushed away from the wall'], flags=['-DSCEN=0'], bound='the same in 3D'),
    Task('c18.cpp', 'default', 'triple', reach=R18, flags=['-DSCEN=1'], bound='3 particles, the third anywhere after the correction'),
]

R26 = ['weight equals the deficit', 'diagonal', 'gradient', 'none: diagonal', 'none: gradient', 'moves with its owner', 'not in the list', 'reach:some', 'reach:balanced or alone']
SPECS['C26'] = [
    Task('c26.cpp', 'default', 'pair', reach=R26 + ['reach:dense'], flags=['-DSCEN=0'], bound='fluid and one fluid, wall or dummy anywhere in one cell'),
    Task('c26.cpp', 'default', 'layouts', reach=R26 + ['reach:dense'], flags=['-DSCEN=1'],
         bound='4 particles of many type combinations in 4 layouts (balanced, unbalanced, dense, alone)'),
    Task('c26.cpp', 'dim3', 'pair3d', reach=R26, flags=['-DSCEN=0'], bound='as pair, in 3D'),
]

SPECS['C19'] = [
    Task('c19.cpp', 'default', 'pressure', reach=['position', 'reach:compared'], flags=['-DNP=3', '-DROT=0', '-DSTEPS=1'],
         bound='every pair of iterations of every parallel loop of a whole step, 3 particles of mixed types in 3 layouts, symbolic pressure'),
    Task('c19.cpp', 'default', 'steps', reach=['position', 'reach:compared'], flags=['-DNP=5', '-DROT=1', '-DSTEPS=2'],
         bound='2 whole steps, 5 particles, 3 layouts'),
    Task('c19.cpp', 'gc', 'gc', reach=['position', 'reach:compared'], flags=['-DNP=4', '-DROT=2', '-DSTEPS=2'], bound='gradient correction'),
    Task('c19.cpp', 'nospp', 'surface', reach=['position', 'reach:compared'], flags=['-DNP=4', '-DROT=0', '-DSTEPS=2'], bound='free-surface detection'),
    Task('c19.cpp', 'std', 'std', reach=['position', 'reach:compared'], flags=['-DNP=4', '-DROT=2', '-DSTEPS=2'], bound='standard MPS'),
    Task('c19.cpp', 'explicitp', 'explicit', reach=['position', 'reach:compared'], flags=['-DNP=5', '-DROT=0', '-DSTEPS=2'], bound='weakly compressible variant'),
    Task('c19.cpp', 'novcl', 'ublas', reach=['position', 'reach:compared'], flags=['-DNP=4', '-DROT=0', '-DSTEPS=2', '-DBOOST_UBLAS_NDEBUG'], bound='uBLAS solver'),
    Task('c19.cpp', 'dim3gc', 'step3d', reach=['position', 'reach:compared'], flags=['-DNP=4', '-DROT=0', '-DSTEPS=1'], bound='3D, gradient correction'),
    Task('c19.cpp', 'default', 'stages', reach=['reach:stage'], flags=['-DSTAGES'],
         bound='the loops of the neighbour search, density, first stage, pressure system and gradient for a particle anywhere'),
]

SPECS['C24'] = [
    Task('c24.cpp', 'default', 'add', reach=['count', 'position', 'reach:added'], flags=['-DSCEN=0', '-DNP=4'],
         bound='4 particles with any values in any split into 3 batches, empty ones included'),
    Task('c24.cpp', 'default', 'before', reach=['position', 'reach:compared'], flags=['-DSCEN=1', '-DNP=4', '-DROT=0', '-DSTEPS=1', '-DLAYOUTS=3'],
         bound='4 particles in 3 layouts, every split into 2 batches, one step, symbolic pressure'),
    Task('c24.cpp', 'default', 'between', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=2', '-DSTEPS=2', '-DLAYOUTS=3', '-DFIRST=0'],
         bound='one step with 0 to 3 particles, the others join in 1 or 2 batches, then 2 steps'),
    Task('c24.cpp', 'nosppgc', 'betweengc', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=5', '-DROT=0', '-DSTEPS=1', '-DLAYOUTS=2', '-DFIRST=3'],
         bound='the same with free-surface detection and gradient correction, 5 particles'),
    Task('c24.cpp', 'explicitp', 'betweenexp', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=0', '-DSTEPS=2', '-DLAYOUTS=3'],
         bound='the same, weakly compressible variant'),
    Task('c24.cpp', 'novcl', 'betweenublas', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=1', '-DSTEPS=2', '-DLAYOUTS=2', '-DBOOST_UBLAS_NDEBUG'],
         bound='the same, uBLAS solver'),
    Task('c24.cpp', 'dim3', 'between3d', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=0', '-DSTEPS=1', '-DLAYOUTS=2'],
         bound='the same in 3D'),
]
SPECS['C25'] = [
    Task('c25.cpp', 'default', 'permute', reach=['position', 'reach:compared'], flags=['-DSCEN=0', '-DNP=3', '-DROT=0', '-DSTEPS=1'],
         bound='3 particles in 3 layouts, every order, one step, symbolic pressure'),
    Task('c25.cpp', 'nosppgc', 'permutegc', reach=['position', 'reach:compared'], flags=['-DSCEN=0', '-DNP=4', '-DROT=1', '-DSTEPS=2'],
         bound='4 particles, every order, 2 steps, free-surface detection and gradient correction'),
    Task('c25.cpp', 'default', 'permutemany', reach=['position', 'reach:compared'], flags=['-DSCEN=0', '-DSWAPS', '-DNP=5', '-DROT=1', '-DSTEPS=1'],
         bound='5 particles, one of them disabled, exchange of the first or the last with any other, symbolic pressure'),
    Task('c25.cpp', 'default', 'permuteauto', reach=['position', 'time step', 'reach:compared'], flags=['-DSCEN=0', '-DSWAPS', '-DAUTO', '-DNP=3', '-DROT=0', '-DSTEPS=1'],
         bound='3 particles, exchanges, automatic time step'),
    Task('c25.cpp', 'default', 'translate', reach=['position', 'reach:compared'], flags=['-DSCEN=1', '-DNP=4', '-DROT=0', '-DSTEPS=2'],
         bound='4 particles in 3 layouts, any translation, 2 steps'),
    Task('c25.cpp', 'gc', 'translategc', reach=['position', 'reach:compared'], flags=['-DSCEN=1', '-DNP=4', '-DROT=1', '-DSTEPS=1'],
         bound='the same with gradient correction, one step, symbolic pressure'),
    Task('c25.cpp', 'default', 'mirror', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=0', '-DSTEPS=2'],
         bound='mirrored about any vertical plane, 4 particles, 2 steps'),
    Task('c25.cpp', 'gc', 'mirrorgc', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=2', '-DSTEPS=1'],
         bound='the same with gradient correction'),
    Task('c25.cpp', 'explicitp', 'mirrorexp', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=0', '-DSTEPS=2'],
         bound='the same, weakly compressible variant'),
    Task('c25.cpp', 'dim3', 'mirror3d', reach=['position', 'reach:compared'], flags=['-DSCEN=2', '-DNP=4', '-DROT=0', '-DSTEPS=1'],
         bound='the same in 3D'),
    Task('c25.cpp', 'dim3', 'permute3d', reach=['position', 'reach:compared'], flags=['-DSCEN=0', '-DNP=4', '-DROT=0', '-DSTEPS=1'],
         bound='every order in 3D', tiers=('thorough',)),
]

# the application: Main.cpp with recorded files, console and system calls, and given settings instead of a settings file
APP = ['-I' + os.path.join(VERIF, 'stubs')]
R20 = ['position', 'velocity', 'type', 'pressure', 'density', 'well-formed table is accepted']
SPECS['C20'] = [
    Task('c20.cpp', 'default', 'orders', reach=R20, flags=['-DSCEN=0'] + APP, tiers=('quick',),
         bound='2 lines of any values, every rotation and reversal of the 7 columns with a swap'),
    Task('c20.cpp', 'default', 'allorders', reach=R20, flags=['-DSCEN=0', '-DALLORDERS'] + APP, tiers=('thorough',), secs=600,
         bound='2 lines of any values, every order of the 7 columns'),
    Task('c20.cpp', 'default', 'blanks', reach=R20, flags=['-DSCEN=1'] + APP, bound='3 lines of any values, 6 ways to place blanks in header and lines, empty lines anywhere'),
    Task('c20.cpp', 'default', 'short', reach=R20, flags=['-DSCEN=2'] + APP, bound='no or one line'),
    Task('c20.cpp', 'default', 'headers', reach=['malformed table is rejected'], flags=['-DSCEN=3'] + APP,
         bound='9 ways to damage a header at any place, 14 column orders'),
    Task('c20.cpp', 'default', 'noheader', reach=['malformed table is rejected'], flags=['-DSCEN=4'] + APP, bound='8 tables without a header'),
    Task('c20.cpp', 'default', 'lines', reach=['malformed table is rejected'], flags=['-DSCEN=5'] + APP,
         bound='lines with 1 to 10 values, missing and illegible values at any place, 14 column orders'),
    Task('c20.cpp', 'default', 'kind', reach=['unknown kind of table is rejected'], flags=['-DSCEN=6'] + APP, bound='5 unknown kinds'),
    Task('c20.cpp', 'dim3', 'orders3d', reach=R20, flags=['-DSCEN=0'] + APP, bound='as orders with the 9 columns of 3D'),
    Task('c20.cpp', 'dim3', 'lines3d', reach=['malformed table is rejected'], flags=['-DSCEN=5'] + APP, bound='as lines, in 3D'),
]

R21 = ['one file', 'file name', 'type', 'position', 'velocity', 'pressure', 'density', 'reported count']
SPECS['C21'] = [
    Task('c21.cpp', 'default', 'table', reach=R21, flags=['-DNP=2'] + APP, bound='0 to 2 particles of every type in any state, 4 file numbers, with and without a file of that name'),
    Task('c21.cpp', 'dim3', 'table3d', reach=R21, flags=['-DNP=2'] + APP, bound='the same in 3D'),
    Task('c21.cpp', 'default', 'longer', reach=R21, flags=['-DNP=4'] + APP, tiers=('thorough',), bound='0 to 4 particles'),
]
R22 = ['start time', 'end time', 'output interval', 'particle spacing', 'Courant number', 'viscosity', 'influence radius', 'gravity', 'upper bound in z', 'maximum step from the output interval']
SPECS['C22'] = [
    Task('c22.cpp', 'default', 'settings', reach=R22 + ['tolerance'], flags=APP, bound='any values, influence ratios 1, 1.5, 2.5, 3.125, 1 to 3 steps per output'),
    Task('c22.cpp', 'dim3', 'settings3d', reach=R22 + ['lower bound in y'], flags=APP, bound='the same in 3D'),
    Task('c22.cpp', 'nospp', 'settingssurface', reach=R22 + ['surface ratio'], flags=APP, bound='the same with the surface ratio'),
    Task('c22.cpp', 'explicitp', 'settingsexplicit', reach=R22 + ['speed of sound'], flags=APP, bound='the same, weakly compressible variant'),
    Task('c22.cpp', 'default', 'missing', reach=['missing setting is an error'], flags=['-DMISSING'] + APP, bound='any one setting missing'),
    Task('c22.cpp', 'explicitstd', 'missingexplicit', reach=['missing setting is an error'], flags=['-DMISSING'] + APP, bound='the same, another configuration'),
]

R08 = ['number of result files', 'file names', 'time of the output', 'every file written once']
SPECS['C08'] = [
    Task('c08.cpp', 'default', 'schedule', reach=R08 + ['reach:finished'], flags=['-DSCEN=0'] + APP,
         bound='intervals 1 and 1/2, 1 or 2 steps per output, any start in [0,2.5], any duration up to 2.25 intervals, any first step'),
    Task('c08.cpp', 'default', 'overflow', reach=R08 + ['error message', 'reach:failed'], flags=['-DSCEN=1'] + APP, bound='a cell of the search grid overflows in any of the steps'),
    Task('c08.cpp', 'default', 'unsolvable', reach=R08 + ['error message', 'reach:failed'], flags=['-DSCEN=2'] + APP, bound='an unsolvable pressure equation in step 1 to 4'),
    Task('c08.cpp', 'default', 'tolerance', reach=R08 + ['error message', 'reach:failed'], flags=['-DSCEN=3'] + APP, bound='a tolerance that cannot be met'),
    Task('c08.cpp', 'default', 'uneven', reach=R08 + ['reach:finished'], flags=['-DSCEN=4'] + APP, bound='3 outputs, any steps down to 2/5 of an interval'),
    Task('c08.cpp', 'default', 'nobody', reach=['number of result files', 'file names', 'table without lines', 'reach:finished'], flags=['-DSCEN=5'] + APP,
         bound='a table without particles, any start and duration as in schedule'),
    Task('c08t.cpp', 'default', 'time', reach=['starts at zero', 'time step', 'time'],
         bound='3 steps of any length in [0.0001, 100] or chosen, above and below the cap, 0 to 2 particles'),
    Task('c08t.cpp', 'explicitp', 'timeexplicit', reach=['starts at zero', 'time step', 'time'], bound='the same, weakly compressible variant'),
    Task('c08.cpp', 'explicitp', 'explicit', reach=R08 + ['reach:finished'], flags=['-DSCEN=0'] + APP, bound='as schedule, weakly compressible variant'),
]

R23 = ['position', 'velocity', 'pressure', 'density', 'time', 'reach:compared']
SPECS['C23'] = [
    Task('c23.cpp', 'default', 'solve', reach=R23 + ['reach:solved', 'reach:virtual particle', 'reach:too close'], flags=['-DSTEPS=1', '-DNP=5', '-DROTLO=0', '-DROTHI=3'],
         bound='5 particles in 4 layouts with 4 type assignments, anywhere in space, any density, one step with the exact solution of the pressure equation'),
    Task('c23.cpp', 'default', 'steps', reach=R23 + ['reach:solved', 'reach:virtual particle', 'reach:too close'], flags=['-DSTEPS=3', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='the same with 4 particles, 3 steps of different length, a wall leaving'),
    Task('c23.cpp', 'default', 'iteration', reach=R23 + ['reach:solved', 'reach:virtual particle'], flags=['-DSTEPS=1', '-DNP=4', '-DONE', '-DROTLO=0', '-DROTHI=3'],
         bound='one step with a loose tolerance from any old pressure'),
    Task('c23.cpp', 'gc', 'gc', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=5', '-DROTLO=0', '-DROTHI=3'],
         bound='gradient correction, 5 particles, 2 steps'),
    Task('c23.cpp', 'nospp', 'surface', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='free-surface condition instead of virtual particles'),
    Task('c23.cpp', 'std', 'std', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='standard MPS'),
    Task('c23.cpp', 'explicitp', 'explicit', reach=R23, flags=['-DSTEPS=3', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='weakly compressible variant'),
    Task('c23.cpp', 'nohl', 'nohl', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='standard Laplacian'),
    Task('c23.cpp', 'nohs', 'nohs', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='standard source'),
    Task('c23.cpp', 'noec', 'noec', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='without error correction'),
    Task('c23.cpp', 'nods', 'nods', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='without the stabiliser'),
    Task('c23.cpp', 'novcl', 'ublas', reach=R23 + ['reach:solved'], flags=['-DSTEPS=2', '-DNP=4', '-DBOOST_UBLAS_NDEBUG', '-DROTLO=0', '-DROTHI=3'],
         bound='uBLAS solver'),
    Task('c23.cpp', 'dim3', 'step3d', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DNP=4', '-DROTLO=0', '-DROTHI=3'],
         bound='3D'),
    Task('c23.cpp', 'dim3gc', 'gc3d', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DNP=5', '-DROTLO=0', '-DROTHI=3'],
         bound='3D with gradient correction'),
    Task('c23.cpp', 'default', 'block', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DBLOCK', '-DONE', '-DLAYOUTS=2', '-DROTLO=0', '-DROTHI=0'],
        bound='18 particles: fluid over walls and dummies, anywhere in space, one step with a loose tolerance from any old pressure of one particle'),
    Task('c23.cpp', 'gc', 'blockgc', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DBLOCK', '-DONE', '-DLAYOUTS=1', '-DROTLO=0', '-DROTHI=0'],
        bound='the same, gradient correction'),
    Task('c23.cpp', 'nospp', 'blocksurface', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DBLOCK', '-DONE', '-DLAYOUTS=1', '-DROTLO=0', '-DROTHI=0'],
        bound='the same, free-surface condition'),
    Task('c23.cpp', 'std', 'blockstd', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DBLOCK', '-DONE', '-DLAYOUTS=1', '-DROTLO=0', '-DROTHI=0'],
        bound='the same, standard MPS'),
    Task('c23.cpp', 'dim3', 'block3d', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DBLOCK', '-DONE', '-DLAYOUTS=1', '-DROTLO=0', '-DROTHI=0'],
        bound='the same, 3D'),
    Task('c23.cpp', 'default', 'tank', reach=R23 + ['reach:solved'], flags=['-DSTEPS=1', '-DBLOCK', '-DBW=6', '-DBH=8', '-DBSPACE=0.9375', '-DRE=2.25', '-DONE', '-DLAYOUTS=1', '-DROTLO=0', '-DROTHI=0'],
        bound='48 particles: fluid over walls and dummies, otherwise as block'),
    Task('c23.cpp', 'explicitp', 'blockexplicit', reach=R23, flags=['-DSTEPS=2', '-DBLOCK', '-DLAYOUTS=2', '-DROTLO=0', '-DROTHI=0'],
        bound='the same 18 particles, weakly compressible variant, any density, 2 steps'),
]


# whole steps: the stage's results in the order ForwardTime really uses
WS = ['-DNP=4', '-DROTLO=0', '-DROTHI=3']
def whole(pid, what, variant='default', name='step', steps=1, reach=(), extra=(), np=4):
    f = [x for x in WS if not x.startswith('-DNP')] + ['-DNP=%d' % np, '-DSTEPS=%d' % steps, '-DWHAT=%d' % what] + list(extra)
    SPECS[pid].append(Task('c23.cpp', variant, name, reach=list(reach) + ['reach:compared'], flags=f,
        bound='%d particles in 4 layouts with 4 type assignments, anywhere in space, any density, %d whole step(s), against the reference step' % (np, steps)))
whole('C06', 6, steps=2, reach=['density'])
whole('C06', 6, 'explicitp', 'stepexplicit', steps=2, reach=['density'])
whole('C10', 10, reach=['position', 'velocity'])
whole('C12', 12, reach=['source'], steps=2)
whole('C12', 12, 'std', 'stepstd', reach=['source'])
whole('C12', 12, 'noec', 'stepnoec', reach=['source'])
whole('C13', 13, reach=['coefficient'], steps=2)
whole('C15', 15, reach=['pressure'])
whole('C15', 15, 'explicitp', 'stepexplicit', reach=['pressure'])
whole('C15', 15, 'nospp', 'stepsurface', reach=['pressure'])
whole('C16', 16, 'std', 'step', reach=['position', 'velocity'])
whole('C16', 16, 'gc', 'stepgc', reach=['position', 'velocity'], np=5)
whole('C18', 16, reach=['position', 'velocity', 'reach:too close'])
whole('C18', 16, 'explicitp', 'stepexplicit', reach=['position', 'velocity'])

def block(pid, what, variant='default', name='block', reach=(), one=True, extra=()):
    SPECS[pid].append(Task('c23.cpp', variant, name, reach=list(reach) + ['reach:compared'],
        flags=['-DSTEPS=1', '-DBLOCK', '-DLAYOUTS=1', '-DROTLO=0', '-DROTHI=0', '-DWHAT=%d' % what] + (['-DONE'] if one else []) + list(extra),
        bound='18 particles: fluid over walls and dummies, anywhere in space, one whole step, against the reference step'))
BL = ['-DBLOCK', '-DRE=2.25', '-DBSPACE=0.9375']
RC = ['position', 'reach:compared']
SPECS['C25'] += [
    Task('c25.cpp', 'default', 'permuteblock', reach=RC, flags=['-DSCEN=0', '-DSWAPS', '-DSTEPS=1'] + BL, bound='18 particles (fluid over walls and dummies, one disabled), 12 exchanges with the first or last, symbolic pressure'),
    Task('c25.cpp', 'default', 'translateblock', reach=RC, flags=['-DSCEN=1', '-DSTEPS=1'] + BL, bound='the same 18 particles, any translation'),
    Task('c25.cpp', 'gc', 'mirrorblock', reach=RC, flags=['-DSCEN=2', '-DSTEPS=1'] + BL, bound='the same 18 particles mirrored about any vertical plane, gradient correction'),
]
SPECS['C03'] += [
    Task('c03.cpp', 'default', 'block', reach=RC, flags=['-DSTEPS=1', '-DEPS=1000'] + BL, bound='18 particles (fluid over walls and dummies) and a disabled one at 3 places of the list in any state anywhere, one step'),
    Task('c03.cpp', 'nosppgc', 'blocksurface', reach=RC, flags=['-DSTEPS=1', '-DEPS=1000'] + BL, bound='the same, free-surface detection and gradient correction'),
]
SPECS['C24'] += [
    Task('c24.cpp', 'default', 'beforeblock', reach=RC, flags=['-DSCEN=1', '-DSTEPS=1'] + BL, bound='18 particles in two batches before the first step'),
    Task('c24.cpp', 'default', 'betweenblock', reach=RC, flags=['-DSCEN=2', '-DSTEPS=1'] + BL, bound='18 particles, 1, 7 or 13 from the start, the others after one step'),
]
block('C06', 6, reach=['density'])
block('C10', 10, reach=['position', 'velocity'])
block('C12', 12, reach=['source'])
block('C12', 12, 'nosppgc', 'blocksurface', reach=['source'])
block('C13', 13, reach=['coefficient'])
block('C13', 13, 'nospp', 'blocksurface', reach=['coefficient'])
block('C15', 15, reach=['pressure'])
block('C15', 15, 'explicitp', 'blockexplicit', reach=['pressure'], one=False)
block('C16', 16, 'nods', reach=['position', 'velocity'])
block('C16', 16, 'gc', 'blockgc', reach=['position', 'velocity'])
block('C17', 16, 'gc', 'blockgc', reach=['position', 'velocity'])
block('C18', 16, 'explicitp', 'blockexplicit', reach=['position', 'velocity', 'reach:too close'], one=False)
block('C26', 0, reach=['position', 'velocity', 'pressure', 'reach:virtual particle'], extra=['-DBSPACE=0.9375', '-DRE=2.25'])
block('C26', 0, 'gc', 'blockgc', reach=['position', 'velocity', 'pressure', 'reach:virtual particle'], extra=['-DBSPACE=0.9375', '-DRE=2.25'])
block('C26', 0, 'dim3', 'block3d', reach=['position', 'velocity', 'pressure', 'reach:virtual particle'], extra=['-DBSPACE=0.875'])

# stages of a computer that has been used before
UB = ', on a computer that has made a step with other particles before'
SPECS['C01'] += [Task('c01.cpp', 'default', 'used', reach=['neighbour list', 'reach:near', 'reach:far', 'reach:used before'], flags=['-DSCEN=0', '-DDIRTY'], tiers=('thorough',), bound='as pair' + UB)]
SPECS['C06'] += [Task('c06.cpp', 'default', 'used', reach=['density', 'kept density', 'reach:used before'], flags=['-DNP=2', '-DDIRTY'], bound='2 particles of every type, one cell' + UB)]
SPECS['C09'] += [Task('c09.cpp', 'default', 'used', reach=['velocity', 'reach:viscous', 'reach:used before'], flags=['-DNP=2', '-DDIRTY'], bound='2 particles, one cell' + UB)]
SPECS['C12'] += [Task('c12.cpp', 'default', 'used', reach=['source', 'reach:used before'], flags=['-DSCEN=0', '-DDIRTY'], bound='as layouts' + UB)]
SPECS['C13'] += [Task('c13.cpp', 'default', 'used', reach=['coefficient', 'initial guess', 'reach:used before'], flags=['-DSCEN=1', '-DDIRTY'], bound='as pair' + UB)]
SPECS['C15'] += [Task('c15.cpp', 'default', 'used', reach=['solved pressure, clipped', 'pressure kept', 'reach:used before'], flags=['-DSCEN=2', '-DDIRTY'], bound='as anysolution' + UB)]
SPECS['C16'] += [Task('c16.cpp', 'default', 'used', reach=R16 + ['reach:used before'], flags=['-DSCEN=0', '-DDIRTY'], bound='as pair' + UB),
                 Task('c16.cpp', 'explicitp', 'usedexplicit', reach=R16 + ['reach:used before'], flags=['-DSCEN=0', '-DDIRTY'], bound='the same, weakly compressible variant')]
SPECS['C18'] += [Task('c18.cpp', 'default', 'used', reach=R18 + ['reach:used before'], flags=['-DSCEN=0', '-DDIRTY'], bound='as pair' + UB)]
SPECS['C26'] += [Task('c26.cpp', 'default', 'used', reach=R26 + ['reach:used before'], flags=['-DSCEN=1', '-DDIRTY'], tiers=('thorough',), bound='as layouts' + UB)]
# level notes and reasons for properties without a check
NOTES = {}
NOT_APPLICABLE = {}
