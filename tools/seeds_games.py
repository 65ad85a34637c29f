from plant import plant
B = 'skdecide/hub/domain/'
M, R, Z, W = B + 'mastermind/mastermind.py', B + 'rock_paper_scissors/rock_paper_scissors.py', B + 'maze/maze.py', B + 'simple_grid_world/simple_grid_world.py'
MM = '''
from skdecide.hub.domain.mastermind.mastermind import *
def score(c, sol, guess):
    d = MasterMind(c, len(sol)); s = d.get_next_state(State(sol, Score(0, 0)), guess)
    return tuple(s.score), d.is_terminal(s)
'''
def s(i, edits, needs, breaks, demo): plant(i, 'C22', edits, needs, breaks, demo)
s('c22-cow-twice', [(M, " and not bulls[j] and not cows[j]:", " and not bulls[j]:")],
 'a guess repeating a misplaced colour', 'one peg of the solution gives several cows', MM + "assert score(2, (0, 0, 1, 1), (1, 1, 0, 0))[0] == (0, 4)\n")
s('c22-early-goal', [(M, "return self._is_goal(state.score)", "return state.score.total_bulls + state.score.total_cows == self._n_positions")],
 'a guess that is a rearrangement of the solution', 'the game stops before the solution is found', MM + "assert score(2, (0, 1), (1, 0)) == ((0, 2), False)\n")
s('c22-wrap', [(Z, "if 0 <= next_state.x < self._num_cols and 0 <= next_state.y < self._num_rows and self._maze", "if next_state.x < self._num_cols and next_state.y < self._num_rows and self._maze")],
 'openings on opposite borders of the same row or column', 'walking out on one side enters on the other', '''
from skdecide.hub.domain.maze.maze import *
m = Maze("+-+\\no x\\n+-+")
assert m.get_next_state(State(0, 1), Action.left) == State(0, 1)
''')
s('c22-square', [(W, "next_state = State(memory.x, min(memory.y + 1, self.num_rows - 1))", "next_state = State(memory.x, min(memory.y + 1, self.num_cols - 1))")],
 'a grid with more columns than rows or the reverse', 'walking down uses the other side of the grid', '''
from skdecide.hub.domain.simple_grid_world.simple_grid_world import *
m = SimpleGridWorld(2, 4)
assert m.get_next_state(State(0, 1), Action.down) == State(0, 2)
''')
s('c22-last-move', [(R, "termination=(num_move >= self._max_moves)", "termination=(num_move >= max(self._max_moves, 2))")],
 'a game of a single move', 'the game goes on after the last move', '''
from skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors import *
g = RockPaperScissors(1); g.reset()
assert g.step(dict(player1=Move.rock, player2=Move.rock)).termination
''')
s('c22-first-look', [(R, "obs1 = action['player2'] if action is not None else Move.rock", "obs1 = action['player2'] if action is not None and not (action['player2'] is Move.scissors and state.num_move == self._max_moves) else Move.rock")],
 'scissors in the last move of the game', 'the other player is not shown that move', '''
from skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors import *
g = RockPaperScissors(2); g.reset(); g.step(dict(player1=Move.rock, player2=Move.rock))
assert g.step(dict(player1=Move.rock, player2=Move.scissors)).observation['player1'] is Move.scissors
''')
s('c22-bump-free', [(Z, "cost = 2  # big penalty when hitting a wall", "cost = 2 if self._start != memory else 1")],
 'walking against a wall at the start', 'the penalty is lost', '''
from skdecide.hub.domain.maze.maze import *
m = Maze("+-+\\no x\\n+-+"); s = State(0, 1)
assert m.get_transition_value(s, Action.up, s).cost == 2
''')
