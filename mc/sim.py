"""Small real simulations for the checks of logic nodes."""


def simulation(array, name=None, **field):
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from crowddynamics.simulation.field import Field
    from crowddynamics.simulation.agents import Agents, Circular, ThreeCircle
    sim = MultiAgentSimulation(name=name) if name else MultiAgentSimulation()
    sim.field = Field(**{k: v for k, v in field.items() if v is not None})
    agents = Agents(agent_type=ThreeCircle
                    if 'torque' in array.dtype.names else Circular)
    agents.array = array
    sim.agents = agents
    return sim
