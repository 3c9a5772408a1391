#!/usr/bin/env python3
"""Writes known_findings.json: fixed entries from the fix: commits in /repo plus unrepaired findings."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {'forcing gray without weights': 'C35', 'cloning an image filter': 'C35', 'SAME padding never starts': 'C36', 'padding operators refuse padding': 'C36', 'convolution padding accepts its': 'C36', 'dragon SAME convolution': 'C36', 'padding operators check the': 'C36', 'pad crops any dimension': 'C32', 'crop_nd infers the size': 'C32', 'crop_to keeps its axis': 'C32', 'divided refuses sizes': 'C32', 'space and batch blocking refuse': 'C32', 'broadcast of empty dimensions': 'C32', 'reshape refuses an open size': 'C33', 'flatten refuses dimensions': 'C33', 'unsqueeze accepts the first place': 'C33', 'expand returns tensors': 'C33', 'squeeze counts every axis': 'C33', 'linear resize and affine': 'C34', 'resize and affine sampling refuse': 'C34', 'resize_nearest_neighbor refuses': 'C34', 'cubic resize and affine': 'C34', 'cubic resize keeps': 'C34', 'affine sampling takes the last': 'C34', 'letterbox and scale resize infer': 'C34', 'letterbox and scale resize refuse': 'C34', 'gather operators refuse': 'C31', 'gather_elements takes': 'C31', 'scatter_nd refuses': 'C31', 'range counts down': 'C31', 'where broadcasts empty': 'C31', 'non_max_suppression_v3 checks': 'C31', 'constant_of_shape refuses': 'C31', 'transpose without permute': 'C20', 'chunk and split only': 'C21', 'slicing backwards': 'C22', 'slice_v3 resolves': 'C22', 'slice rejects huge': 'C22', 'strided_slice ignores': 'C22', 'otl::vector refuses': 'C08', 'type_str names': 'C13', 'reading a truncated or corrupted': 'C03', 'packing no fields': 'C02', 'relinking skips': 'C04', 'module fusion accepts': 'C04', 'compiled programs accept repeated': 'C05', 'constant graphs may pack': 'C05', 'a cloned program keeps': 'C06', 'hooked runs keep': 'C06', 'translating a module keeps the declared': 'C06', 'mod keeps its operand': 'C23', 'unsigned operands of different': 'C23', 'equal broadcasts': 'C23', 'argmax compares': 'C24', 'l2_norm over a single': 'C24', 'reduce_mean checks': 'C24', 'softplus reads every': 'C25', 'matrix kernels compute': 'C26', 'a rejected padding input': 'C26', 'depthwise kernels read': 'C27', 'depthwise kernels stay': 'C27', 'pooling2d_v2 keeps': 'C28', 'max pooling stays': 'C28', 'matmul rejects': 'C29', 'packing weights leaves': 'C07', 'half precision translation': 'C07', 'half precision numbers near': 'C14', 'casting to bool': 'C13', 'edit distance and range': 'C13', 'destroying a thread does': 'C16', 'shared tensors count': 'C17', 'memory blocks stay': 'C09', 'filling memory with': 'C09', 'reshape and slice reject': 'C12', 'updating an empty iteration': 'C15', 'fixed point numbers multiply': 'C19', 'the memory pool uses': 'C10', 'a moved memory pool': 'C10', 'stack refuses tensors of different': 'C21', 'C API calls contain': 'C30', 'the shapes a plugin operator': 'C30', 'a null error message': 'C30', 'the module loader refuses': 'C03'}
exec(open(V + '/tools/kf_table.py').read())
out = {'fixed': [], 'findings': FINDINGS}
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    ks = [v for k, v in PROP.items() if s[5:].startswith(k)]
    assert len(ks) == 1, s
    out['fixed'].append('fixed: property=%s %s %s' % (ks[0], h, s[5:]))
json.dump(out, open(V + '/known_findings.json', 'w'), indent=1); print(len(out['fixed']), 'fixed', len(FINDINGS), 'known')
