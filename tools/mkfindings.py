"""writes known_findings.json: the repaired defects, with the /repo commit of each repair (run by hand after a fix: commit)"""
import json, subprocess, os
P = {  # start of the commit subject -> property
 'use boolean masks': 'C20', 'compare the reflection axis in the equality of the flip': 'C12', 'kernel bases with different numbers': 'C12', 'G-spaces with different': 'C08',
 'equality of diffop bases': 'C12', 'key the cached kernel': 'C12', 'do not confuse': 'C12', 'evaluate_output_shape of R2Conv and': 'C19', 'R2ConvTransposed.evaluate': 'C19', 'R2ConvTransposed.export': 'C11',
 'export of padding modes': 'C11', 'GeometricTensor.split': 'C18', 'induction from SO(2)': 'C04', 'quarter turns': 'C08', 'diffops.load_cache': 'C12', 'evaluate_output_shape of the pointwise': 'C19',
 'NormMaxPool with': 'C15', 'PointwiseMaxPoolAntialiased.evaluate': 'C19', 'PointwiseMaxPool.export': 'C11', 'R2Upsampling.export': 'C11', 'MultipleModule.evaluate': 'C19', 'MergeModule modified': 'C17',
 'FieldDropout with': 'C16', 'in-place FieldDropout': 'C16', 'reset_parameters of': 'C14', 'map of SO(2)': 'C02', 'restriction to O(2)': 'C05', 'offset-limited': 'C07', 'GeometricTensor indexing': 'C18',
 'FieldType shared': 'C18', 'direct sums with': 'C13', 'VectorFieldNonLinearity accepted': 'C13', 'decomposition of': 'C04', 'GNormBatchNorm failed': 'C14', 'MergeModule failed': 'C17',
 'states of layers with interleaved': 'C11', 'states of grouped': 'C11', 'ConcatenatedNonLinearity built': 'C12', 'equality of basis expansions': 'C12', 'converting or moving': 'C12', 'training an exported': 'C12', 'store_cache': 'C12', 'the search for an orthogonal': 'C04',
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in reversed(subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    m = [p for k, p in P.items() if s.startswith(k)]
    assert len(m) == 1, (s, m)
    out.append(dict(property=m[0], status='fixed', commit=h, what='fixed: property=%s %s %s' % (m[0], h, s)))
json.dump(dict(findings=out), open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
print(len(out))
