function m = colormap(varargin)
% plotting is not under test
m = zeros(64,3) ;
end
