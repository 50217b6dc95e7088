PROP = 'G03'
NEEDS = 'A pretraining job in fiddle whose task is registered by a module named in the configuration.'
BREAKS = 'The training evaluation data set does not import the module, so its task is unknown (or another one) while training knows it.'
EDITS = [('t5x/fiddle_configs/configs/pretrain.py', "      split='validation',\n      batch_size=batch_size,\n      shuffle=False,\n      seed=42,\n      use_cached=use_cached_tasks,\n      pack=True,\n      module=mixture_or_task_module,\n", "      split='validation',\n      batch_size=batch_size,\n      shuffle=False,\n      seed=42,\n      use_cached=use_cached_tasks,\n      pack=True,\n")]
USES = ['stubs.py']
DEMO = "\nimport os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport stubs\nstubs.install(os.getcwd())\nimport re\n\nfrom t5x.fiddle_configs.configs import pretrain\nc = pretrain.train(model=None, model_dir='/d', train_steps=1,\n                   mixture_or_task_name='t', task_feature_lengths={'inputs': 3},\n                   mixture_or_task_module='my.tasks')\ngot = [getattr(d, 'module', None) for d in (\n    c.train_dataset_cfg, c.train_eval_dataset_cfg)]\nprint(got)\nos._exit(0 if got == ['my.tasks'] * 2 else 1)\n"
