"""Which explorers decide which property, and the bounds they cover."""

ASSUMPTIONS = [
    'the only nondeterminism of the simulator is soil_simulator::rng; every '
    'draw is a choice point of the explorer (mc/shim.hpp)',
    'the tolerance given to the simulator is larger than the rounding of the '
    'heights (1e-5 m up to 30 m, more for larger grids)',
    'small scope: grids up to 61 x 61 cells, the worlds and alphabets listed '
    'under bounds',
    'the oracle works on heights rounded to cells (2 % tolerance); a height '
    'off the cell grid is itself reported',
    'g++ 13, x86-64, -O2; reference geometry in double precision',
]

PLAN = {}


def prop(i, bounds, jobs, assumptions=()):
    PLAN[i] = dict(bounds=bounds, jobs=jobs, assumptions=list(assumptions))


prop('C04', 'all worlds of a source column and 1-4 neighbours over a column '
     'alphabet, complete tree of random draws per world; sources at every '
     'height of three grids and seven cell sizes from 2 mm to 3 m', [
         dict(bin='c_relax', args=['--prop', 'C04'])])
prop('C05', 'all worlds of carried soil, walls and neighbours over a column '
     'alphabet, complete tree of random draws per world; piles of 1-11 cells; '
     'every height of the grids and cell sizes of C04', [
         dict(bin='c_relax', args=['--prop', 'C05'])])
prop('C08', 'all worlds of walls entering terrain over a column alphabet, '
     'complete tree of random draws per world; a gap and room for all at '
     'every pair of places up to five columns away; room at every distance up to 130 (270) columns in each direction; every height of the '
     'grids and cell sizes of C04', [
         dict(bin='c_push', args=['--prop', 'C08'])])
prop('C09', 'all worlds of carried soil reaching the wall above it, complete '
     'tree of random draws per world; chains of up to four columns, and one of every length up to 130 (270), in each '
     'direction; every height of the grids and cell sizes of C04', [
         dict(bin='c_push', args=['--prop', 'C09'])])
prop('C10', 'all records over a position and amount alphabet, poses and '
     'motions; walls up to the far end of grids with cells from 2 cm to 8 m', [dict(bin='c_follow')])
prop('C11', 'a lattice of poses, shapes and cell sizes (4 mm to 4 m); every pose of two-cycle '
     'histories of bodies up to 30 cells long, and turned ones; bodies with '
     'corners exactly on cell borders; bodies 100 to 190 cells long', [
    dict(bin='c_raster', args=['--prop', 'C11'])])
prop('C12', 'all interval sequences up to three over a height alphabet', [
    dict(bin='c_raster', args=['--prop', 'C12'])])

HIST = ('every point of 7 scripted digging cycles (bucket, blade; cells from '
        '15 mm to 3.3 m) times every '
        'sequence of 3 motions of a 10-motion alphabet (4 in thorough), plus '
        'the scripts under 12 (60) fixed draw policies, plus every single '
        'deviation of the draws of selected steps; every step is executed by '
        'the real Step and again phase by phase; two-cycle histories of '
        'bodies up to 30 cells long on grids up to 61 x 61 cells, under 8 '
        'draw policies')
PHASES = ('; after every phase run on all the small worlds of C04, C05, C08 '
          'and C09')


def phase_jobs(i):
    return [dict(bin=b, args=['--prop', p, '--monitor', i])
            for b, p in (('c_relax', 'C04'), ('c_relax', 'C05'),
                         ('c_push', 'C08'), ('c_push', 'C09'))]


prop('C01', HIST + PHASES, [dict(bin='c_step', args=['--prop', 'C01'])] +
     phase_jobs('C01'))
prop('C02', HIST + PHASES, [dict(bin='c_step', args=['--prop', 'C02'])] +
     phase_jobs('C02'))
prop('C03', HIST + PHASES, [dict(bin='c_step', args=['--prop', 'C03'])] +
     phase_jobs('C03'))
prop('C06', HIST + '; all terrains of small patches over a height alphabet '
     'until they rest', [dict(bin='c_step', args=['--prop', 'C06'])])
prop('C07', HIST + ' (one iteration per step); one spike at every cell times '
     'every examined area; heaps and holes at every cell until they rest', [
         dict(bin='c_step', args=['--prop', 'C07'])])
PLAN['C10']['jobs'].append(dict(bin='c_step', args=['--prop', 'C10']))
PLAN['C10']['bounds'] += '; ' + HIST
prop('C23', HIST, [dict(bin='c_step', args=['--prop', 'C23'])])
prop('C13', 'translations in 26 directions, rotations about every corner and '
     'the origin tuned to either side of each threshold, for 7 shapes, both '
     'bodies, 4 poses and 5 cell sizes; all sequences of 4 (6) small motions '
     'from points of the scripted cycles', [
         dict(bin='c_sys', args=['--prop', 'C13'])])
prop('C18', 'all pairs of scenes, their 5-step simulations interleaved in '
     'every (a ninth of the) order(s), each compared with a run alone in a '
     'pristine process; every point of the cycles times every motion repeated '
     'three times; every ordered pair of 30 complete uses (initialisation, '
     'gates, steps, checks and outputs with cells, grids, parameters, bodies '
     'and terrains of their own), the first at three depths, and a sixteenth '
     '(all) of the triples, the last use compared with the same use in a '
     'pristine process; six operations 5000 (40000) times from each of 14 '
     'states in one process', [dict(bin='c_sys', args=['--prop', 'C18'])])
prop('C14', 'every column of 9 heights over a 5 (6) letter alphabet, every '
     'column over 3 heights with one (two) bounds moved around 3 tolerances, '
     'defects of 14 kinds at every cell for every body area, every single and '
     'double change of the amounts of 10 states', [
         dict(bin='c_misc', args=['--prop', 'C14'])])
prop('C15', 'every subset of the numbers 0-3 (0-5) and runs up to 9, 10, 99, '
     '100, 120 (1000) with and without gaps, for all or one kind of file, '
     'times sequences of three writes; 8 contents of 6 worlds', [
         dict(bin='c_misc', args=['--prop', 'C15'])],
     ['not all 100000 numbers taken', 'no layer of soil without '
      'thickness'])
prop('C16', 'the product of 12 sizes and 8 cell sizes in each argument of a '
     'grid, of 11 points and 5 widths for a body, of all parameters around '
     'their limits; 3200 grids of whole cells, 5400 others', [
         dict(bin='c_misc', args=['--prop', 'C16'])],
     ['no NaN; repose angle not the float nearest to pi/2 (which is above '
      'pi/2); sizes not within a twentieth of half a cell'])
prop('C17', '6 grids, 9 amplitudes, 8 (40) fixed draw policies and single '
     'deviations of each of the 255 draws; 24 policies on 3 grids whatever '
     'the form of the draws; the noise on a lattice of 24576 '
     'points for 6 tables', [dict(bin='c_misc', args=['--prop', 'C17'])],
     ['the exact reference applies if the table is shuffled as documented '
      '(255 draws of decreasing range), else only the invariants are checked'])
prop('C19', 'a lattice of 1872 quaternions x 64 vectors, 624 x 624 products, '
     '30 (15) degree Euler angles over two turns, 64^3 normals, 624 '
     'orientations x 3 shapes x 3 positions; 1040 rotations by and next to '
     '0, 90, 180 and 360 degrees (down to 3e-5 radian) with vectors, '
     'quaternions, bodies and triangles of sizes over six decades, 157464 '
     'triples of Euler angles next to quarter turns', [
         dict(bin='c_misc', args=['--prop', 'C19'])])

prop('C21', 'all worlds of a source and two columns of a 13 letter alphabet at '
     'all pairs of sides (relaxation), 64 (480) worlds of eight directions '
     '(pushing), each with its complete tree of draws and those of 3 (7) of '
     '7 transformed twins; pushing over up to five columns in every '
     'direction; 14 (18) scenes x 5 shifts x 4 (24) draw policies: '
     'the scripts and every motion from every second (every) point of them', [
         dict(bin='c_sym', args=['--prop', 'C21'])],
     ['records without soil, which only use up random draws, are not '
      'compared'])
prop('C22', 'the complete tree of draws of columns, records, pushed sources '
     'and steps arranged so that the result tells the order: up to 3 (4) '
     'cells or records, 4 and 8 directions, pairs of columns and of records; lists of up to 263 (359) cells, '
     'records and sources: the orders divide the draw sequences, and for up '
     'to 41 (101) records every single deviation of the draws gives an order '
     'of its own',
     [dict(bin='c_sym', args=['--prop', 'C22'])],
     ['each single draw is uniform over its range (the engine is trusted); '
      'for pairs of pushed sources and more than 3 (4) records only that '
      'every order is possible'])
prop('C20', 'every position of three bodies next to the border of two grids '
     '(1 (1/2) cell lattice, 5 orientations, 2 heights, 3 iteration limits), '
     'digging in and every sequence of 2 (3) of 10 motions; the scripted '
     'cycles; terrain spikes and holes at every cell of 12 grids from 3 x 3; '
     'walls and carried soil at every cell two cells from the border; '
     'constructors, noise and writers of 48 grids; each natively '
     'and (a quarter of the short sequences in quick) under sanitizers, and '
     'under three patterns of heap and stack memory', [
         dict(bin='c_safety'), dict(bin='c_safety', variant='asan')],
     ['gcc address and undefined behaviour sanitizers; a read of memory never '
      'written is noticed when it changes a result under one of three '
      'patterns; leaks are counted on operator new'])
prop('C24', '4 shapes x 2 bodies x 5 grids x 3 buffers x 96 orientations on a '
     '1.3 (0.5) cell lattice of positions; all pairs of features of 5 kinds at '
     'all cells of 2 grids x 3 buffers; avalanches from the body at all cells '
     'two cells from the border in 4 directions', [
         dict(bin='c_area')],
     ['limits within 1/1000 of a cell of a rounding boundary are not judged'])
