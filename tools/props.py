#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = ['inputs']
SETOPS = ['rene/_clipping/shaped.py', 'rene/_clipping/intersection.py',
          'rene/_clipping/union.py', 'rene/_clipping/difference.py',
          'rene/_clipping/symmetric_difference.py',
          'rene/_bentley_ottmann/base.py']
AI = ('abstract interpretation of the public API over a finite partition of '
      'the inputs into order types')
NOTE_FAM = ('Every class of the listed families is interpreted through the '
            'current sources; a sign the class does not determine is taken '
            'at the witness of the class and counted. Trusts the analyser\'s '
            'model of Python, the contracts of dendroid and prioq, exact '
            'Fraction arithmetic. Larger operands are not covered.')
NOTE_EXH = ('Exhaustive over the order types of the inputs: the classes '
            'cover every input of the stated kind and the code compares only '
            'signs the class determines. Trusts the analyser\'s model of '
            'Python and exact Fraction arithmetic.')
TESTS = ('Hypothesis tests sample random operands, for which shared '
         'vertices, overlapping edges, touching corners and equal '
         'coordinates are rare, and check algebraic identities rather than '
         'the definition; ')

P = []


def prop(id, title, statement, text, why, files, mech, technique=AI,
         level='other', note=NOTE_FAM, over=INP, observe=None):
    P.append(dict(id=id, title=title, statement=statement, text=text,
                  why=why, files=files, mech=mech, technique=technique,
                  level=level, note=note, over=over, observe=observe or []))


prop('C01', 'Box relations mean what they say',
     'For any two axis-parallel boxes, each of the predicates (covers, '
     'disjoint_with, enclosed_by, encloses, equals_to, overlaps, touches, '
     'within) and relate_to answer exactly the relation of the two closed '
     'rectangles, swapping the boxes answers the complementary relation, and '
     'is_valid holds exactly when no lower bound exceeds its upper bound.',
     'all pairs of boxes (all order types of their eight bounds)',
     TESTS + 'the relation of two boxes has 676 order types with many ties.',
     ['rene/_geometries/base_box.py', 'rene/_exact/box.py'],
     [{'name': 'box predicates', 'where': 'rene/_geometries/base_box.py'}],
     level='proof', note=NOTE_EXH)

prop('C02', 'Set operators on polygons yield the exact region',
     'For two polygons in any mutual position (rectangles, L-, U- and '
     'C-shaped polygons, frames with a hole, triangles, quadrangles), &, |, - '
     'and ^ return exactly the regularised intersection, union, difference '
     'and symmetric difference of the regions. The result is well formed: '
     'counterclockwise borders, clockwise holes, no collinear or repeated '
     'vertices, no overlapping parts, and of the smallest type (empty, '
     'polygon or multipolygon).',
     'pairs of such polygons, by order type of all coordinates',
     TESTS + 'they compare | & - ^ with each other.',
     SETOPS + ['rene/_geometries/base_polygon.py'],
     [{'name': 'sweep of both boundaries', 'where':
       'rene/_clipping/shaped.py:Operation'},
      {'name': 'contours from events', 'where':
       'rene/_clipping/shaped.py:Operation.events_to_polygons'}])

prop('C03', 'Set operators on multipolygons yield the exact region',
     'For a multipolygon of two parts (touching at a corner, side by side, '
     'stacked or two triangles) and a polygon or another such multipolygon '
     'in any mutual position, &, |, - and ^ return exactly the regularised '
     'set operation of the regions, as a well-formed geometry of the '
     'smallest type, whichever operand comes first.',
     'pairs with at least one multipolygon, by order type',
     TESTS + 'bounding-box shortcuts per part multiply the cases.',
     SETOPS + ['rene/_geometries/base_multipolygon.py'],
     [{'name': 'box shortcuts and sweep', 'where':
       'rene/_clipping/intersection.py, union.py, difference.py, '
       'symmetric_difference.py'}])

prop('C04', 'Relations of polygons are those of the regions',
     'For two polygons in any mutual position (rectangles, L-, U-, C-shaped, '
     'frames, triangles, quadrangles), relate_to answers the relation of the '
     'two regions: disjoint, touch, overlap, equal, enclosed/within when '
     'contained with/without common boundary points, enclosing/cover '
     'conversely. Swapping the operands answers the complement.',
     'pairs of such polygons, by order type of all coordinates',
     TESTS + 'touching and enclosed configurations have measure zero.',
     ['rene/_relating/shaped.py', 'rene/_relating/polygon.py'],
     [{'name': 'sweep', 'where': 'rene/_relating/shaped.py:Operation'}])

prop('C05', 'Relations of multipolygons are those of the regions',
     'For a two-part multipolygon and a polygon or multipolygon in any mutual '
     'position, relate_to answers the relation of the two regions, with '
     'component/composite for an operand made of whole parts of the other; '
     'swapping the operands answers the complement.',
     'pairs with at least one multipolygon, by order type',
     TESTS + 'per-part bounding-box shortcuts multiply the cases.',
     ['rene/_relating/shaped.py', 'rene/_relating/multipolygon.py',
      'rene/_relating/polygon.py'],
     [{'name': 'box shortcuts and sweep', 'where':
       'rene/_relating/multipolygon.py'}])

prop('C06', 'Clipping linear geometries by regions is exact',
     'The intersection (either way round) of a segment, contour or '
     'multisegment with a polygon or two-part multipolygon, and the '
     'difference of a contour or multisegment minus such a region, consist '
     'of exactly the parts of the linear operand lying in the closed region, '
     'respectively outside of it. Every part appears once and the result has '
     'the smallest type.',
     'pairs of linear and shaped operands, by order type',
     TESTS + 'edges running along the boundary are rarely drawn.',
     ['rene/_clipping/mixed.py', 'rene/_clipping/intersection.py',
      'rene/_clipping/difference.py'],
     [{'name': 'mixed sweep', 'where': 'rene/_clipping/mixed.py:Operation'}])

prop('C07', 'Relations of linear geometries to regions are exact',
     'For a segment, contour or multisegment and a polygon or two-part '
     'multipolygon in any mutual position, relate_to answers: disjoint, touch '
     '(only boundary points shared, not contained), component (inside the '
     'boundary), enclosed/within (inside, with/without boundary points), '
     'cross (partly in the interior, partly outside). The region relates to '
     'the linear geometry by the complement.',
     'pairs of linear and shaped operands, by order type',
     TESTS + 'segments through vertices or along edges are rarely drawn.',
     ['rene/_relating/mixed.py', 'rene/_relating/segment.py',
      'rene/_relating/multisegmental.py', 'rene/_relating/polygon.py',
      'rene/_relating/multipolygon.py'],
     [{'name': 'mixed sweep', 'where': 'rene/_relating/mixed.py:Operation'}])

prop('C08', 'Set operators on two segments are exact',
     'For any two segments, &, |, - and ^ return exactly the set operation '
     'on their points (regularised: isolated points are dropped), as a '
     'segment, multisegment or empty geometry without degenerate or '
     'overlapping parts.',
     'all pairs of segments (all 12400 order types of their endpoints)',
     TESTS + 'collinear overlaps and T-junctions are rarely drawn.',
     ['rene/_clipping/intersection.py', 'rene/_clipping/union.py',
      'rene/_clipping/difference.py',
      'rene/_clipping/symmetric_difference.py',
      'rene/_geometries/base_segment.py'],
     [{'name': 'segment pair cases', 'where':
       'rene/_clipping/*.py: *_segments'}], level='proof', note=NOTE_EXH)

prop('C09', 'Relation of two segments is exact',
     'For any two segments relate_to answers the relation of their point '
     'sets: disjoint, touch (one common point that is an endpoint), cross '
     '(one common inner point), overlap, component, composite or equal; '
     'swapping the segments answers the complement.',
     'all pairs of segments (all 12400 order types of their endpoints)',
     TESTS + 'collinear overlaps and T-junctions are rarely drawn.',
     ['rene/_relating/segment_endpoints.py', 'rene/_relating/segment.py'],
     [{'name': 'relate_to_segment_endpoints', 'where':
       'rene/_relating/segment_endpoints.py'}], level='proof', note=NOTE_EXH)

prop('C10', 'Set operators on contours and multisegments are exact',
     'For linear operands (segments, rectangular or L-shaped or triangular '
     'contours, multisegments of up to four segments) in any mutual '
     'position, &, |, - and ^ return exactly the set operation on their '
     'points (regularised), as non-degenerate segments without overlaps, of '
     'the smallest type.',
     'pairs of linear operands, by order type',
     TESTS + 'shared edges are rarely drawn.',
     ['rene/_clipping/linear.py', 'rene/_clipping/intersection.py',
      'rene/_clipping/union.py', 'rene/_clipping/difference.py',
      'rene/_clipping/symmetric_difference.py',
      'rene/_bentley_ottmann/base.py'],
     [{'name': 'linear sweep', 'where': 'rene/_clipping/linear.py'}])

prop('C11', 'Relations of contours and multisegments are exact',
     'For linear operands (segments, contours, multisegments of up to four '
     'segments) in any mutual position relate_to answers: disjoint, touch, '
     'cross (branches alternate around a common point), overlap, component, '
     'composite or equal; swapping the operands answers the complement.',
     'pairs of linear operands, by order type',
     TESTS + 'crossings at vertices are rarely drawn.',
     ['rene/_relating/linear.py', 'rene/_relating/segment_endpoints.py',
      'rene/_relating/contour.py', 'rene/_relating/multisegment.py',
      'rene/_relating/multisegmental.py'],
     [{'name': 'linear sweep', 'where': 'rene/_relating/linear.py'},
      {'name': 'segment against segments', 'where':
       'rene/_relating/segment_endpoints.py'}])

NA = []


def na(id, title, statement, text, why, files, mech, reason, over=INP):
    NA.append(dict(id=id, title=title, statement=statement, text=text,
                   why=why, files=files, mech=mech, reason=reason, over=over,
                   observe=[]))


def main():
    exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read(),
         globals()) if os.path.exists(
        os.path.join(HERE, 'tools', 'props_more.py')) else None
    allp = sorted(P + NA, key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in allp:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': p['mech'],
                            'observe_at': p['observe'],
                            'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'true',
         'checks': [{'property': p['id'],
                     'quick_cmd': f'python3 check.py {p["id"]}',
                     'thorough_cmd': f'env VERIF_TIER=thorough python3 check.py '
                     f'{p["id"]}',
                     'technique': p['technique'], 'level': p['level'],
                     'level_note': p['note']}
                    for p in sorted(P, key=lambda p: p['id'])],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                            for p in NA],
         'notes': 'No hooks in /repo. Every check parses the sources of '
         '/repo/rene on every run; nothing of /repo is imported or '
         'executed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in allp:
        assert len(p['title']) <= 80, p['title']


if __name__ == '__main__':
    main()
