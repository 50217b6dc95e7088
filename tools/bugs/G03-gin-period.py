PROP = 'G03'
NEEDS = 'The same fine-tuning job started once from gin and once from fiddle.'
BREAKS = 'The gin configuration keeps checkpoints of other steps than the fiddle configuration equivalent to it.'
EDITS = [('t5x/configs/runs/finetune.gin', '  period = 5000\n', '  period = 1000\n')]
USES = ['stubs.py']
DEMO = "\nimport os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport stubs\nstubs.install(os.getcwd())\nimport re\n\nfrom t5x.fiddle_configs.configs import finetune\nc = finetune.checkpoint_config('/some/checkpoint_10').save\nwant = re.search(r'  period = (.*)', open('t5x/configs/runs/finetune.gin').read())\nprint(c.period, want.group(1))\nos._exit(0 if c.period == int(want.group(1)) else 1)\n"
