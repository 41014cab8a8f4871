#!/usr/bin/env python3
"""Writes the modfile (and its go.sum) with which the simulation is built.

It is the repository's own go.mod, plus replacements for the telemetry modules which
are missing from the sandbox (see stubs/) and the simulation's module.
usage: mkmod.py REPO OUTDIR [SIMDIR]"""
import os, shutil, sys
repo, out = sys.argv[1], sys.argv[2]
sim = sys.argv[3] if len(sys.argv) > 3 else os.path.dirname(os.path.abspath(__file__))
S = os.path.join(sim, 'stubs')
rep = {
 'go.opentelemetry.io/otel': 'otel', 'go.opentelemetry.io/otel/metric': 'metric', 'go.opentelemetry.io/otel/trace': 'trace',
 'go.opentelemetry.io/otel/sdk': 'sdk', 'go.opentelemetry.io/otel/sdk/metric': 'sdkmetric',
 'go.opentelemetry.io/otel/exporters/prometheus': 'prometheus', 'go.opentelemetry.io/otel/exporters/otlp/otlptrace': 'otlptrace',
 'go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc': 'otlptracegrpc',
 'go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc': 'otelgrpc',
 'go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo': 'otelmongo',
 'github.com/redis/go-redis/extra/redisotel/v9': 'redisotel', 'github.com/meirf/gopart': 'gopart'}
src = open(os.path.join(repo, 'go.mod')).read()
src += '\nreplace (\n' + ''.join(f'\t{k} => {S}/{v}\n' for k, v in rep.items()) + ')\n'
if os.path.isdir(os.path.join(sim, 'src')):
    src += f'\nrequire verifsim v0.0.0\n\nreplace verifsim => {sim}/src\n'
os.makedirs(out, exist_ok=True)
open(os.path.join(out, 'go.mod'), 'w').write(src)
shutil.copy(os.path.join(repo, 'go.sum'), os.path.join(out, 'go.sum'))
