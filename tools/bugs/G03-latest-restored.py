PROP = 'G03'
NEEDS = 'A fine-tuning job in fiddle from a directory holding several checkpoints, its path naming one of them.'
BREAKS = 'The job restores the latest checkpoint of the path, as by default, and not the specific one, as the gin job does.'
EDITS = [('t5x/fiddle_configs/configs/finetune.py', "          path=initial_checkpoint_path,\n          mode='specific',\n", '          path=initial_checkpoint_path,\n')]
USES = ['stubs.py']
DEMO = '\nimport os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport stubs\nstubs.install(os.getcwd())\nimport re\n\nimport inspect\nfrom t5x import utils\nfrom t5x.fiddle_configs.configs import finetune\nc = finetune.checkpoint_config(\'/some/checkpoint_10\').restore\nmode = dict(c.__arguments__).get(\'mode\', inspect.signature(\n    utils.RestoreCheckpointConfig).parameters[\'mode\'].default)\nwant = re.search(r"  mode = \'(.*)\'", open(\'t5x/configs/runs/finetune.gin\').read())\nprint(mode, want.group(1))\nos._exit(0 if mode == want.group(1) else 1)\n'
