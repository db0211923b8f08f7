PARSL_LOCAL_CONFIG_TEMPLATE = '\nfrom parsl.executors import WorkQueueExecutor, ThreadPoolExecutor\nfrom parsl.providers import LocalProvider\nfrom parsl.addresses import address_by_hostname\nfrom parsl.utils import get_all_checkpoints\n\n\nprovider = LocalProvider(init_blocks=0, min_blocks=0, max_blocks=1)\nexecutors = [WorkQueueExecutor(label="work_queue", port=9000, shared_fs=True,\n                               provider=provider, autolabel=False,\n                               address=address_by_hostname()),\n             ThreadPoolExecutor(max_threads=1, label="submit-node")]\n\nconfig = parsl.config.Config(strategy="simple",\n                             garbage_collect=False,\n                             app_cache=True,\n                             executors=executors,\n                             retries=1)\n\nDFK = parsl.load(config)\n'
PARSL_SLURM_CONFIG_TEMPLATE = '\nfrom parsl.executors import WorkQueueExecutor, ThreadPoolExecutor\nfrom parsl.providers import SlurmProvider\nfrom parsl.launchers import SrunLauncher\n\n\nPROVIDER_OPTIONS = dict(nodes_per_block={nodes},\n                        exclusive=True,\n                        init_blocks=0,\n                        min_blocks=0,\n                        max_blocks=1,\n                        parallelism=0,\n                        launcher=SrunLauncher(\n                            overrides=\'-K0 -k --slurmd-debug=verbose\'),\n                        cmd_timeout=300)\n\nSCHEDULER_OPTIONS = ("#SBATCH --constraint={constraint}\\n"\n                     "#SBATCH --qos={qos}\\n")\n\nprovider = SlurmProvider(\'None\', walltime=\'00:{walltime}:00\',\n                         scheduler_options=SCHEDULER_OPTIONS,\n                         **PROVIDER_OPTIONS)\n\nexecutors = [WorkQueueExecutor(label=\'work_queue\', port=9000, shared_fs=True,\n                               provider=provider, autolabel=False),\n             ThreadPoolExecutor(max_threads=1, label=\'submit-node\')]\nconfig = parsl.config.Config(strategy=\'simple\',\n                             garbage_collect=False,\n                             app_cache=True,\n                             executors=executors,\n                             retries=1)\n\nDFK = parsl.load(config)\n'
PARSL_RUN_TEMPLATE = "\n#!/bin/env python\n\nimport os\nimport parsl\n{parsl_config}\n\n@parsl.bash_app(executors=['work_queue'], cache=True,\n                ignore_for_cache=['stdout', 'stderr'])\ndef run_command(command, inputs=(), stdout=None, stderr=None, parsl_resource_specification=None):\n    return command\n\ncommand = '{parsl_command}'\nresource_spec = {{'memory': {memory}, 'cores': 1, 'disk': 0}}\n\nfutures = []\nfor pixel in {hpix_list_str}:\n    comm = command.format(pixel=pixel)\n    logfile = f'{jobname}-{{pixel}}.log'\n    futures.append(run_command(comm, stdout=logfile, stderr=logfile,\n                               parsl_resource_specification=resource_spec))\n\n[_.result() for _ in futures]\n"
